// the types, in groups
template <typename... T> struct list_of {};
template <typename T> static void run();
template <typename... T> static void pick(list_of<T...>)
{
    unsigned n = kls::choose("type", sizeof...(T)), i = 0;
    ((n == i++ ? run<T>() : (void)0), ...);
}
template <typename T> struct always { static const bool v = true; };
template <typename T> static bool round_trips(bool skip_null);
template <typename T> static void fill_used(T& x);
#if B_TYPES == 1 // scalars
typedef list_of<int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, bool, float, double, std::string, Color, Plain16, kl::enum_set<Flag>, kl::enum_set<Mask>> types;
#elif B_TYPES == 2 // containers
typedef list_of<std::vector<int>, std::vector<bool>, std::deque<std::string>, std::list<Color>, std::array<int, 2>, std::map<std::string, int>, std::optional<int>, std::optional<std::vector<int>>, std::vector<std::optional<int>>,
                std::map<std::string, std::optional<int>>, std::tuple<int, std::string, std::optional<int>>, std::pair<bool, int>, std::vector<std::vector<int>>, std::map<std::string, std::vector<int>>, std::tuple<>, std::array<std::optional<int>, 2>,
                std::vector<std::pair<int, Color>>>
    types;
#elif B_TYPES == 3 // structs
struct A {
    int i = 0;
    std::string s;
    std::optional<int> o;
};
KL_REFLECT_STRUCT(A, i, s, o)
static S s_of(const A*) { S s; s.k = SOBJ; s.f = {F("i", s_of((int*)0)), F("s", s_of((std::string*)0)), F("o", s_of((std::optional<int>*)0))}; return s; }
static V v_of(const A& a) { V v; v.c = {v_of(a.i), v_of(a.s), v_of(a.o)}; return v; }
static void fill(A& a) { fill(a.i); fill(a.s); fill(a.o); }
struct P {
    int x = 7;
    bool b = true;
};
KL_REFLECT_STRUCT(P, x, b)
static S s_of(const P*) { S s; s.k = SOBJ; s.f = {F("x", s_of((int*)0)), F("b", s_of((bool*)0))}; V x, b; x.u = 7; b.u = 1; V v; v.c = {x, b}; s.init = {v}; return s; }
static V v_of(const P& a) { V v; v.c = {v_of(a.x), v_of(a.b)}; return v; }
static void fill(P& a) { fill(a.x); fill(a.b); }
struct N {
    P p;
    std::optional<P> o;
    Color c = Color::red;
};
KL_REFLECT_STRUCT(N, p, o, c)
static S s_of(const N*) { S s; s.k = SOBJ; s.f = {F("p", s_of((P*)0)), F("o", s_of((std::optional<P>*)0)), F("c", s_of((Color*)0))}; return s; }
static V v_of(const N& a) { V v; v.c = {v_of(a.p), v_of(a.o), v_of(a.c)}; return v; }
static void fill(N& a) { fill(a.p); fill(a.o); fill(a.c); }
struct D : P { // fields of the base come first
    int d = 0;
};
KL_REFLECT_STRUCT_DERIVED(D, P, d)
static S s_of(const D*) { S s = s_of((P*)0); s.f.push_back(F("d", s_of((int*)0))); s.init[0].c.push_back(V()); return s; }
static V v_of(const D& a) { V v = v_of((const P&)a); v.c.push_back(v_of(a.d)); return v; }
static void fill(D& a) { fill((P&)a); fill(a.d); }
typedef list_of<A, P, N, std::vector<P>, std::map<std::string, P>, std::optional<P>, D, std::pair<P, int>> types;
#elif B_TYPES == 4 // attributes
struct Ren { // renamed, aliased, defaulted
    int a = 0, b = 0, c = 0;
};
KL_REFLECT_STRUCT(Ren, (a, sa::rename("A")), (b, sa::rename("bee"), sa::aliases("b", "b2")), (c, sa::default_value(42)))
static V num(uint64_t u) { V v; v.u = u; return v; }
static S s_of(const Ren*) { S i = s_of((int*)0), s; s.k = SOBJ; s.f = {F("A", i).as("a"), F("bee", i).as("b").al("b").al("b2"), F("c", i).dflt(num(42))}; return s; }
static V v_of(const Ren& a) { V v; v.c = {v_of(a.a), v_of(a.b), v_of(a.c)}; return v; }
static void fill(Ren& a) { fill(a.a); fill(a.b); fill(a.c); }
struct Mis {
    int a = 1;
    std::optional<int> b, c;
    std::vector<int> d;
};
KL_REFLECT_STRUCT(Mis, (a, sa::allow_missing), (b, sa::allow_missing), (c, sa::default_value(9)), (d, sa::allow_missing, sa::skip_if_empty))
static S s_of(const Mis*)
{
    S s, o = s_of((std::optional<int>*)0);
    V nine;
    nine.c = {num(9)};
    s.k = SOBJ;
    s.f = {F("a", s_of((int*)0)).opt(), F("b", o).opt(), F("c", o).dflt(nine), F("d", s_of((std::vector<int>*)0)).opt().skempty()};
    V v;
    v.c = {num(1), V(), V(), V()};
    s.init = {v};
    return s;
}
static V v_of(const Mis& a) { V v; v.c = {v_of(a.a), v_of(a.b), v_of(a.c), v_of(a.d)}; return v; }
static void fill(Mis& a) { fill(a.a); fill(a.b); fill(a.c); size_t n = kls::choose("size", 2); if (n) a.d.push_back(kls::sym<int>("value")); }
struct Skp {
    int both = 3, out = 4, in = 5, plain = 6;
};
KL_REFLECT_STRUCT(Skp, (both, sa::skip), (out, sa::skip_serialization), (in, sa::skip_deserialization), plain)
static S s_of(const Skp*)
{
    S i = s_of((int*)0), s;
    s.k = SOBJ;
    s.f = {F("both", i).noser().node(), F("out", i).noser(), F("in", i).node(), F("plain", i)};
    V v;
    v.c = {num(3), num(4), num(5), num(6)};
    s.init = {v};
    return s;
}
static V v_of(const Skp& a) { V v; v.c = {v_of(a.both), v_of(a.out), v_of(a.in), v_of(a.plain)}; return v; }
static void fill(Skp& a) { fill(a.both); fill(a.out); fill(a.in); fill(a.plain); }
struct Nul {
    std::optional<int> plain, never, always;
    std::string text;
};
KL_REFLECT_STRUCT(Nul, plain, (never, sa::skip_if_null), (always, sa::emit_null), (text, sa::skip_if_empty, sa::default_value(std::string())))
static S s_of(const Nul*) { S o = s_of((std::optional<int>*)0), s; s.k = SOBJ; s.f = {F("plain", o), F("never", o).sknull(), F("always", o).emnull(), F("text", s_of((std::string*)0)).skempty().dflt(V())}; return s; }
static V v_of(const Nul& a) { V v; v.c = {v_of(a.plain), v_of(a.never), v_of(a.always), v_of(a.text)}; return v; }
static void fill(Nul& a) { fill(a.plain); fill(a.never); fill(a.always); a.text = any_text("text", 1); }
static void even(int v) { if (v & 1) throw kl::serialization::deserialize_error{"odd"}; }
struct Val {
    int r = 0, lo = 5, hi = 0, e = 0, two = 0;
};
KL_REFLECT_STRUCT(Val, (r, sa::range(-2, 10)), (lo, sa::greater_equal(5), sa::default_value(1)), (hi, sa::less_equal(-1), sa::allow_missing), (e, sa::validate(even)), (two, sa::greater_equal(1), sa::less_equal(3), sa::aliases("deux")))
static int64_t sx(const V& v) { return (int32_t)v.u; }
static S s_of(const Val*)
{
    S i = s_of((int*)0), s;
    s.k = SOBJ;
    s.f = {F("r", i).check([](const V& v) { return sx(v) >= -2 && sx(v) <= 10; }), F("lo", i).check([](const V& v) { return sx(v) >= 5; }).dflt(num(1)), F("hi", i).check([](const V& v) { return sx(v) <= -1; }).opt(),
           F("e", i).check([](const V& v) { return !(v.u & 1); }), F("two", i).al("deux").check([](const V& v) { return sx(v) >= 1 && sx(v) <= 3; })};
    V v;
    v.c = {num(0), num(5), num(0), num(0), num(0)};
    s.init = {v};
    return s;
}
static V v_of(const Val& a) { V v; v.c = {v_of(a.r), v_of(a.lo), v_of(a.hi), v_of(a.e), v_of(a.two)}; return v; }
static void fill(Val& a)
{
    fill(a.r); fill(a.lo); fill(a.hi); fill(a.e); fill(a.two);
    kls_assume(a.r >= -2 && a.r <= 10 && a.lo >= 5 && a.hi <= -1 && !(a.e & 1) && a.two >= 1 && a.two <= 3);
}
struct Arr { // may come as an array
    int r = 1, no = 2, e = 0;
};
KL_REFLECT_STRUCT(Arr, (r, sa::range(1, 9), sa::rename("R")), (no, sa::skip_deserialization), (e, sa::validate(even)))
static S s_of(const Arr*)
{
    S i = s_of((int*)0), s;
    s.k = SOBJ;
    s.f = {F("R", i).as("r").check([](const V& v) { return sx(v) >= 1 && sx(v) <= 9; }), F("no", i).node(), F("e", i).check([](const V& v) { return !(v.u & 1); })};
    V v;
    v.c = {num(1), num(2), num(0)};
    s.init = {v};
    return s;
}
static V v_of(const Arr& a) { V v; v.c = {v_of(a.r), v_of(a.no), v_of(a.e)}; return v; }
static void fill(Arr& a)
{
    fill(a.r); fill(a.no); fill(a.e);
    kls_assume(a.r >= 1 && a.r <= 9 && !(a.e & 1));
}
typedef list_of<Ren, Mis, Skp, Nul, Val, Arr> types;
#elif B_TYPES == 5 // flattened structs and extra fields
struct In {
    int x = 0, y = 0;
};
KL_REFLECT_STRUCT(In, x, (y, sa::rename("why"), sa::aliases("y")))
static S s_of(const In*) { S i = s_of((int*)0), s; s.k = SOBJ; s.f = {F("x", i), F("why", i).as("y").al("y")}; return s; }
static V v_of(const In& a) { V v; v.c = {v_of(a.x), v_of(a.y)}; return v; }
static void fill(In& a) { fill(a.x); fill(a.y); }
struct Fl {
    int a = 0;
    In in;
};
KL_REFLECT_STRUCT(Fl, a, (in, sa::flatten))
static S s_of(const Fl*) { S s; s.k = SOBJ; s.f = {F("a", s_of((int*)0)), F("in", s_of((In*)0)).flatten()}; return s; }
static V v_of(const Fl& a) { V v; v.c = {v_of(a.a), v_of(a.in)}; return v; }
static void fill(Fl& a) { fill(a.a); fill(a.in); }
struct Ex {
    int a = 0;
    std::map<std::string, int> rest;
};
KL_REFLECT_STRUCT(Ex, (a, sa::aliases("alpha")), (rest, sa::extra_fields))
static S s_of(const Ex*) { S s; s.k = SOBJ; s.f = {F("a", s_of((int*)0)).al("alpha"), F("rest", s_of((std::map<std::string, int>*)0)).extras()}; return s; }
static V v_of(const Ex& a) { V v; v.c = {v_of(a.a), v_of(a.rest)}; return v; }
template <typename T> static void fill_extra(std::map<std::string, T>& m)
{
    static const char* const k[] = {"zz", "b"};
    size_t n = kls::choose("extra", 3);
    for (size_t i = 0; i < n; ++i) { T t{}; fill(t); m.emplace(k[i], t); }
}
static void fill(Ex& a) { fill(a.a); fill_extra(a.rest); }
struct FE {
    In in;
    std::map<std::string, std::optional<int>> rest;
    int tail = 0;
};
KL_REFLECT_STRUCT(FE, (in, sa::flatten), (rest, sa::extra_fields), tail)
static S s_of(const FE*) { S s; s.k = SOBJ; s.f = {F("in", s_of((In*)0)).flatten(), F("rest", s_of((std::map<std::string, std::optional<int>>*)0)).extras(), F("tail", s_of((int*)0))}; return s; }
static V v_of(const FE& a) { V v; v.c = {v_of(a.in), v_of(a.rest), v_of(a.tail)}; return v; }
static void fill(FE& a) { fill(a.in); fill_extra(a.rest); fill(a.tail); }
struct FF { // flattened twice
    Fl f;
    int z = 0;
};
KL_REFLECT_STRUCT(FF, (f, sa::flatten), (z, sa::allow_missing))
static S s_of(const FF*) { S s; s.k = SOBJ; s.f = {F("f", s_of((Fl*)0)).flatten(), F("z", s_of((int*)0)).opt()}; return s; }
static V v_of(const FF& a) { V v; v.c = {v_of(a.f), v_of(a.z)}; return v; }
static void fill(FF& a) { fill(a.f); fill(a.z); }
struct Hol { // things that may be empty, flattened
    std::map<std::string, int> m;
    std::optional<int> o;
    std::vector<int> v;
};
KL_REFLECT_STRUCT(Hol, m, o, (v, sa::skip_if_empty, sa::default_value(std::vector<int>())))
static S s_of(const Hol*) { S s; s.k = SOBJ; s.f = {F("m", s_of((std::map<std::string, int>*)0)), F("o", s_of((std::optional<int>*)0)), F("v", s_of((std::vector<int>*)0)).skempty().dflt(V())}; return s; }
static V v_of(const Hol& a) { V v; v.c = {v_of(a.m), v_of(a.o), v_of(a.v)}; return v; }
static void fill(Hol& a) { if (kls::choose("m", 2)) a.m["k"] = kls::sym<int>("value"); fill(a.o); if (kls::choose("v", 2)) a.v.push_back(kls::sym<int>("value")); }
struct FH {
    Hol h;
    int a = 0;
};
KL_REFLECT_STRUCT(FH, (h, sa::flatten), a)
static S s_of(const FH*) { S s; s.k = SOBJ; s.f = {F("h", s_of((Hol*)0)).flatten(), F("a", s_of((int*)0))}; return s; }
static V v_of(const FH& a) { V v; v.c = {v_of(a.h), v_of(a.a)}; return v; }
static void fill(FH& a) { fill(a.h); fill(a.a); }
struct XS { // structs as extra fields
    int a = 0;
    std::map<std::string, In> rest;
};
KL_REFLECT_STRUCT(XS, a, (rest, sa::extra_fields))
static S s_of(const XS*) { S s; s.k = SOBJ; s.f = {F("a", s_of((int*)0)), F("rest", s_of((std::map<std::string, In>*)0)).extras()}; return s; }
static V v_of(const XS& a) { V v; v.c = {v_of(a.a), v_of(a.rest)}; return v; }
static void fill(XS& a) { fill(a.a); fill_extra(a.rest); }
template <typename T> static bool collide(T&) { return false; }
static bool collide(Ex& e) { e.rest[kls::choose("name", 2) ? "a" : "alpha"] = kls::sym<int>("value"); return true; }
static bool collide(FE& e) { static const char* const k[] = {"x", "why", "y", "tail"}; e.rest[k[kls::choose("name", 4)]] = kls::sym<int>("value"); return true; }
typedef list_of<Fl, Ex, FE, FF, FH, XS> types;
#elif B_TYPES == 6 // a flattened struct that itself collects extra fields
struct NE {
    int n = 0;
    std::map<std::string, int> rest;
};
KL_REFLECT_STRUCT(NE, n, (rest, sa::extra_fields))
static S s_of(const NE*) { S s; s.k = SOBJ; s.f = {F("n", s_of((int*)0)), F("rest", s_of((std::map<std::string, int>*)0)).extras()}; return s; }
static V v_of(const NE& a) { V v; v.c = {v_of(a.n), v_of(a.rest)}; return v; }
static void fill(NE& a) { fill(a.n); if (kls::choose("extra", 2)) { int i = 0; fill(i); a.rest.emplace("zz", i); } }
struct FN {
    int a = 0;
    NE in;
};
KL_REFLECT_STRUCT(FN, a, (in, sa::flatten))
static S s_of(const FN*) { S s; s.k = SOBJ; s.f = {F("a", s_of((int*)0)), F("in", s_of((NE*)0)).flatten()}; return s; }
static V v_of(const FN& a) { V v; v.c = {v_of(a.a), v_of(a.in)}; return v; }
static void fill(FN& a) { fill(a.a); fill(a.in); }
typedef list_of<FN> types;
#elif B_TYPES == 7 // attributes inside containers, validators on whole structs and containers
struct Pt {
    int x = 1, y = 2;
};
KL_REFLECT_STRUCT(Pt, (x, sa::allow_missing), (y, sa::aliases("yy")))
static V num(uint64_t u) { V v; v.u = u; return v; }
static S s_of(const Pt*)
{
    S i = s_of((int*)0), s;
    s.k = SOBJ;
    s.f = {F("x", i).opt(), F("y", i).al("yy")};
    V v;
    v.c = {num(1), num(2)};
    s.init = {v};
    return s;
}
static V v_of(const Pt& a) { V v; v.c = {v_of(a.x), v_of(a.y)}; return v; }
static void fill(Pt& a) { fill(a.x); fill(a.y); }
static void ordered(const Pt& p) { if (p.x > p.y) throw kl::serialization::deserialize_error{"not ordered"}; }
static void few(const std::map<std::string, int>& m) { if (m.size() > 1) throw kl::serialization::deserialize_error{"too many"}; }
struct VS {
    Pt p;
    std::map<std::string, int> m;
};
KL_REFLECT_STRUCT(VS, (p, sa::validate(ordered)), (m, sa::validate(few), sa::allow_missing))
static S s_of(const VS*)
{
    S s;
    s.k = SOBJ;
    s.f = {F("p", s_of((Pt*)0)).check([](const V& v) { return (int32_t)v.c[0].u <= (int32_t)v.c[1].u; }), F("m", s_of((std::map<std::string, int>*)0)).opt().check([](const V& v) { return v.c.size() <= 1; })};
    V v;
    v.c = {s_of((Pt*)0).init[0], V()};
    s.init = {v};
    return s;
}
static V v_of(const VS& a) { V v; v.c = {v_of(a.p), v_of(a.m)}; return v; }
static void fill(VS& a) { fill(a.p); kls_assume(a.p.x <= a.p.y); if (kls::choose("m", 2)) a.m["k"] = kls::sym<int>("value"); }
typedef list_of<VS, std::optional<Pt>, std::vector<Pt>, std::map<std::string, Pt>, std::pair<Pt, int>, std::array<Pt, 2>, std::optional<VS>, std::tuple<std::optional<Pt>, bool>> types;
#endif
// whether reading back is expected to give the same value
inline bool lossy(const S& s, bool skip_null, bool in_map)
{
    if (s.k == SOPT && in_map && skip_null) return true;
    for (auto& f : s.f) {
        if (f.skip_ser || f.skip_de) return true;
        if (!f.def.empty() && f.t().k == SOPT) return true; // null reads as the default
        if (lossy(f.t(), skip_null, false)) return true;
    }
    for (auto& e : s.e)
        if (lossy(e, skip_null, s.k == SMAP)) return true;
    return false;
}
template <typename T> static bool round_trips(bool skip_null) { return !lossy(s_of((T*)0), skip_null, false); }
template <typename T> static void fill_used(T& x) { fill(x); }
static void choose_type() { pick(types()); }
