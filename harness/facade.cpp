// C29: iterators built on the facade obey the random-access laws.
#include "kls.h"
#include "kl/iterator_facade.hpp"
struct item { long v; };
// an iterator over the integers: position p refers to the item with value p
template <typename Ref> struct pos : kl::iterator_facade<pos<Ref>, Ref, std::random_access_iterator_tag> {
    long p = 0;

    explicit pos(long x) : p(x) {}
    Ref dereference() const { static item cur; cur.v = p; return cur; }
    void increment() { ++p; }
    void decrement() { --p; }
    void advance(std::ptrdiff_t n) { p += n; }
    bool equal_to(const pos& o) const { return p == o.p; }
    std::ptrdiff_t distance_to(const pos& o) const { return p - o.p; }
};
template <typename Ref> static void run()
{
    const long L = 1l << 40;
    long a = kls::sym<long>("a"), b = kls::sym<long>("b"), n = kls::sym<long>("n");
    kls_assume(a > -L && a < L && b > -L && b < L && n > -L && n < L);
    using I = pos<Ref>;
    const I x(a), y(b);
    CHECKM((*x).v == a && x->v == a, "dereference");
    CHECKM(x[n].v == a + n && x.p == a, "x[n] is *(x + n)");
    CHECKM((x + n).p == a + n && (n + x).p == a + n && (x - n).p == a - n && x.p == a, "x + n, n + x, x - n");
    CHECKM(x - y == a - b, "x - y");
    CHECKM((y + (x - y)) == x, "y + (x - y) is x");
    CHECKM((x == y) == (a == b) && (x != y) == (a != b), "equality");
    CHECKM((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b), "order");
    I t(a);
    CHECKM(&++t == &t && t.p == a + 1, "++x");
    t = x;
    I old = t++;
    CHECKM(old.p == a && t.p == a + 1, "x++ returns the old position");
    t = x;
    CHECKM(&--t == &t && t.p == a - 1, "--x");
    t = x;
    I old2 = t--;
    CHECKM(old2.p == a && t.p == a - 1, "x-- returns the old position");
    t = x;
    CHECKM(&(t += n) == &t && t.p == a + n, "x += n");
    t = x;
    CHECKM(&(t -= n) == &t && t.p == a - n, "x -= n");
    COVER("end");
}
extern "C" void kls_harness()
{
    if (kls::choose("ref", 2)) run<item&>();
    else run<item>();
}
