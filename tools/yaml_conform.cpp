// Prints what yaml-cpp does in the situations the stand-in (shim/yaml-cpp) models.  Built once
// against each by tools/yaml_conform.sh; the two outputs must be the same.
#include <yaml-cpp/yaml.h>
#include <iostream>
#include <limits>
#ifdef STANDIN
extern "C" void kls_assume(int c) { if (!c) std::abort(); }
#endif
using YAML::Node;
static void show(const Node& n)
{
    if (!n) { std::cout << "?"; return; }
    if (n.IsNull()) std::cout << "~";
    else if (n.IsScalar()) std::cout << "'" << n.Scalar() << "'";
    else if (n.IsSequence()) { std::cout << "["; for (const auto& e : n) { show(e); std::cout << ","; } std::cout << "]" << n.size(); }
    else { std::cout << "{"; for (const auto& e : n) { show(e.first); std::cout << ":"; show(e.second); std::cout << ","; } std::cout << "}" << n.size(); }
}
#define SHOW(n) (show(n), std::cout << "\n")
#define TRY(x) try { x; } catch (const YAML::BadConversion&) { std::cout << "BadConversion\n"; } catch (const YAML::InvalidNode&) { std::cout << "InvalidNode\n"; } catch (const YAML::Exception&) { std::cout << "Exception\n"; }
template <typename T> static void get(const Node& n) { TRY(std::cout << +n.as<T>() << "\n"); }
template <typename T> static void ints(T v) { Node n(v); show(n); std::cout << " "; get<short>(n); get<unsigned short>(n); get<int>(n); get<unsigned>(n); get<long>(n); get<unsigned long>(n); get<signed char>(n); get<unsigned char>(n); get<double>(n); get<float>(n); get<bool>(n); }
int main()
{
    // references
    Node a(YAML::NodeType::Map), b;
    a["k"] = 1;
    a["l"] = Node("text");
    const Node ca = a;
    SHOW(a); SHOW(ca["k"]); SHOW(ca["zz"]);
    std::cout << (bool)ca["zz"] << ca["zz"].IsDefined() << !ca["zz"] << "\n";
    TRY(SHOW(Node(ca["zz"].Type())));
    TRY((void)ca["zz"].size());
    TRY((void)ca["zz"].Scalar());
    Node u = a["new"]; // undefined member
    SHOW(a); std::cout << u.IsDefined() << a.size() << "\n";
    u = 5;
    SHOW(a);
    Node k = a["k"];
    k = Node("again");
    SHOW(a);
    Node other("other");
    k = other; // what k refers to becomes other
    SHOW(a); SHOW(k);
    Node r = a["l"];
    r.reset(other);
    SHOW(a); SHOW(r);
    b = a;
    b["more"] = true;
    SHOW(a); std::cout << b.is(a) << "\n";
    Node fresh;
    std::cout << fresh.IsNull() << fresh.IsDefined() << fresh.size() << (fresh.begin() == fresh.end()) << "\n";
    fresh = a; // nothing to change yet
    SHOW(fresh);
    // maps
    Node m(YAML::NodeType::Map);
    m.force_insert("d", 1); m.force_insert("d", 2); m.force_insert(std::string("e"), Node()); m.force_insert(7, 8);
    SHOW(m); SHOW(static_cast<const Node&>(m)["d"]); SHOW(static_cast<const Node&>(m)[std::string("d")]); SHOW(static_cast<const Node&>(m)["e"]); SHOW(static_cast<const Node&>(m)[7]); SHOW(static_cast<const Node&>(m)["7"]);
    m.remove("d");
    SHOW(m);
    std::string nul("a\0b", 3);
    m.force_insert(nul, 9);
    std::cout << (bool)static_cast<const Node&>(m)["a"] << (bool)static_cast<const Node&>(m)[nul] << "\n";
    // sequences
    Node s(YAML::NodeType::Sequence);
    s.push_back(1); s.push_back(Node()); s.push_back("t"); s.push_back(a);
    SHOW(s); SHOW(static_cast<const Node&>(s)[1]); SHOW(static_cast<const Node&>(s)[9]); SHOW(static_cast<const Node&>(s)["x"]); SHOW(static_cast<const Node&>(s)[-1]); SHOW(static_cast<const Node&>(s)[std::size_t(2)]);
    TRY(SHOW(static_cast<const Node&>(other)["x"]));
    TRY(other.push_back(1));
    Node nn;
    nn.push_back(3);
    SHOW(nn);
    Node nm;
    nm["x"] = 4;
    SHOW(nm);
    SHOW(static_cast<const Node&>(Node())["x"]);
    Node sm(YAML::NodeType::Sequence);
    sm.push_back("p");
    sm["x"] = 1;
    SHOW(sm);
    // scalars
    ints<int>(0); ints<int>(-1); ints<int>(127); ints<int>(128); ints<int>(-128); ints<int>(-129); ints<int>(255); ints<int>(256); ints<int>(32767); ints<int>(32768); ints<int>(-32769); ints<int>(65536); ints<long>(2147483648); ints<long>(-2147483649); ints<unsigned long>(~0ul); ints<long>(std::numeric_limits<long>::min());
    for (const char* t : {"", "?", "12", "0x1f", "017", "08", "-3", "+4", "1 x", "true", "True", "TRUE", "tRue", "tRUE", "no", "Y", "off", "nO", "red", "-"}) { Node n(t); show(n); std::cout << " "; get<int>(n); get<unsigned char>(n); get<bool>(n); get<unsigned long>(n); get<double>(n); }
    Node t(true), f(false), h(0.5);
    SHOW(t); SHOW(f); SHOW(h); get<bool>(t); get<bool>(f); get<int>(t); get<int>(h); get<double>(h); get<float>(h); get<bool>(h);
    TRY(std::cout << Node().as<std::string>() << "\n"); get<int>(Node()); get<bool>(Node()); TRY(std::cout << s.as<std::string>() << "\n"); get<int>(s);
    SHOW(Node((signed char)65)); SHOW(Node((unsigned char)66)); SHOW(Node('c')); TRY(std::cout << Node('c').as<char>() << "\n");
    std::cout << Node().Scalar().size() << s.Scalar().size() << "\n";
    Node c = YAML::Clone(a);
    c["k"] = "cloned";
    SHOW(a); SHOW(c);
}
