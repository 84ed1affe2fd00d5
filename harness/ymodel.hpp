// Model documents as YAML nodes and back.
#pragma once
#include "jmodel.hpp"
#include <yaml-cpp/yaml.h>
inline YAML::Node to_yaml(const J& j)
{
    YAML::Node n;
    switch (j.k) {
    case JNULL: return n;
    case JBOOL: n.kls_set(YAML::model::of_bool((bool)j.u)); return n;
    case JNUM: {
        YAML::model::scalar s;
        s.k = YAML::model::INT;
        s.have = false;
        s.u = j.u;
        s.neg = j.neg;
        n.kls_set(s);
        return n;
    }
    case JDBL: {
        double d;
        memcpy(&d, &j.u, 8);
        n.kls_set(YAML::model::of_real(d, false));
        return n;
    }
    case JSTR: n.kls_set(YAML::model::of_text(j.s)); return n;
    case JARR: {
        YAML::Node a(YAML::NodeType::Sequence);
        for (auto& e : j.a) a.push_back(to_yaml(e));
        return a;
    }
    default: {
        YAML::Node o(YAML::NodeType::Map);
        for (auto& m : j.o) o.force_insert(m.first, to_yaml(m.second));
        return o;
    }
    }
}
inline J from_yaml(const YAML::Node& n)
{
    J j;
    if (!n || n.IsNull()) return j;
    if (n.IsSequence()) {
        j = jarr();
        for (const auto& e : n) j.a.push_back(from_yaml(e));
        return j;
    }
    if (n.IsMap()) {
        j = jobj();
        for (const auto& m : n) j.o.push_back({m.first.Scalar(), from_yaml(m.second)});
        return j;
    }
    const YAML::model::scalar& s = n.kls_scalar();
    switch (s.k) {
    case YAML::model::TEXT: return jstr(s.text);
    case YAML::model::BOOL: return jbool((bool)s.u);
    case YAML::model::REAL: j.k = JDBL; j.u = s.u; return j;
    default: j.k = JNUM; j.u = s.u; j.neg = s.neg; return j;
    }
}
