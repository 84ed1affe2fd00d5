#include "solver.hpp"
#include <algorithm>
#include <chrono>
#include <unistd.h>

Shared* SH = nullptr;

Solver::Solver() {}

const Solver::Sup& Solver::support(E e)
{
    auto it = sup.find(e);
    if (it != sup.end()) return it->second;
    Sup s;
    C->support(e, s.v);
    // floating point anywhere?
    s.fp = false;
    std::vector<E> st{e};
    std::unordered_set<E> seen;
    while (!st.empty()) {
        E x = st.back();
        st.pop_back();
        if (!seen.insert(x).second) continue;
        if (x->k >= FADD) s.fp = true;
        for (E y : {x->a, x->b, x->c}) if (y) st.push_back(y);
    }
    return sup.emplace(e, std::move(s)).first->second;
}

static u64 nowUs()
{
    using namespace std::chrono;
    return duration_cast<microseconds>(steady_clock::now().time_since_epoch()).count();
}

SR Solver::z3check(const std::vector<E>& cs, bool fp, const std::vector<u32>& vars, std::vector<std::pair<u32, u64>>& m)
{
    Z3_context z = C->z3;
    u64 t0 = nowUs();
    SH->queries++;
    if (!dumpDir.empty() && dumped < dumpMax) {
        Z3_solver d = Z3_mk_solver(z);
        Z3_solver_inc_ref(z, d);
        for (E e : cs) Z3_solver_assert(z, d, C->boolean(e));
        std::string f = dumpDir + "/q" + std::to_string(getpid()) + "_" + std::to_string(dumped++) + ".smt2";
        FILE* o = fopen(f.c_str(), "w");
        if (o) { fprintf(o, "%s(check-sat)\n", Z3_solver_to_string(z, d)); fclose(o); }
        Z3_solver_dec_ref(z, d);
    }
    SR r = UNK_;
    auto run = [&](Z3_solver s, unsigned ms) {
        Z3_params p = Z3_mk_params(z);
        Z3_params_inc_ref(z, p);
        Z3_params_set_uint(z, p, Z3_mk_string_symbol(z, "timeout"), ms);
        Z3_solver_set_params(z, s, p);
        Z3_params_dec_ref(z, p);
        for (E e : cs) Z3_solver_assert(z, s, C->boolean(e));
        Z3_lbool l = Z3_solver_check(z, s);
        r = l == Z3_L_TRUE ? SAT_ : l == Z3_L_FALSE ? UNSAT_ : UNK_;
        if (r == SAT_) {
            Z3_model mo = Z3_solver_get_model(z, s);
            Z3_model_inc_ref(z, mo);
            for (u32 v : vars) {
                Z3_ast out = nullptr;
                E se = C->varExpr[v];
                u64 x = 0;
                if (Z3_model_eval(z, mo, C->bv(se), true, &out)) {
                    if (Z3_get_ast_kind(z, out) == Z3_NUMERAL_AST) Z3_get_numeral_uint64(z, out, (uint64_t*)&x);
                }
                m.push_back({v, x});
            }
            Z3_model_dec_ref(z, mo);
        }
    };
    if (!fp) {
        static unsigned uses = 0;
        if (inc && ++uses > 3000) { Z3_solver_dec_ref(z, inc); inc = nullptr; uses = 0; }
        if (!inc) { inc = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV")); Z3_solver_inc_ref(z, inc); }
        Z3_solver_push(z, inc);
        run(inc, std::min(timeoutMs, 3000u));
        Z3_solver_pop(z, inc, 1);
        if (r == UNK_) {
            Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BV"));
            Z3_solver_inc_ref(z, s);
            m.clear();
            run(s, timeoutMs);
            Z3_solver_dec_ref(z, s);
        }
    } else {
        Z3_solver s = Z3_mk_solver_for_logic(z, Z3_mk_string_symbol(z, "QF_BVFP"));
        Z3_solver_inc_ref(z, s);
        run(s, timeoutMs);
        Z3_solver_dec_ref(z, s);
    }
    u64 dt = nowUs() - t0;
    SH->solverUs += dt;
    (r == SAT_ ? SH->sat : r == UNSAT_ ? SH->unsat : SH->unknown)++;
    return r;
}

SR Solver::check(const State& s, E extra, std::shared_ptr<const Model>& out)
{
    if (isc(extra)) {
        if (!extra->cv) return UNSAT_;
        out = s.model;
        return SAT_;
    }
    // slice
    ++markGen;
    if (mark.size() < C->vars.size()) mark.resize(C->vars.size() + 64, 0);
    const Sup& es = support(extra);
    bool fp = es.fp;
    for (u32 v : es.v) mark[v] = markGen;
    size_t n = s.pc.size();
    std::vector<char> used(n, 0);
    std::vector<E> cs;
    std::vector<u32> vars(es.v);
    bool ch = true;
    while (ch) {
        ch = false;
        for (size_t i = n; i-- > 0;) {
            if (used[i]) continue;
            const Sup& q = support(s.pc[i]);
            bool hit = false;
            for (u32 v : q.v) if (mark[v] == markGen) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1;
            fp |= q.fp;
            cs.push_back(s.pc[i]);
            for (u32 v : q.v) if (mark[v] != markGen) { mark[v] = markGen; vars.push_back(v); ch = true; }
        }
    }
    cs.push_back(extra);
    std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
    cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
    std::string key;
    key.reserve(cs.size() * 4);
    for (E e : cs) key.append((const char*)&e->id, 4);
    std::sort(vars.begin(), vars.end());

    auto build = [&](const std::vector<std::pair<u32, u64>>& m) {
        auto nm = std::make_shared<Model>(*s.model);
        for (auto& p : m) {
            if (nm->size() <= p.first) nm->resize(p.first + 1, 0);
            (*nm)[p.first] = p.second;
        }
        out = nm;
    };
    auto it = cache.find(key);
    if (it != cache.end()) {
        SH->cacheHits++;
        if (it->second.r == SAT_) build(it->second.m);
        return it->second.r;
    }
    // try recent models
    if (!fp)
        for (size_t i = recent.size(); i-- > 0;) {
            Model t;
            t.assign(vars.empty() ? 1 : vars.back() + 1, 0);
            for (u32 v : vars) t[v] = v < s.model->size() ? (*s.model)[v] : 0;
            for (auto& p : recent[i]) if (p.first < t.size()) t[p.first] = p.second;
            C->newEval();
            bool ok = true;
            for (size_t k = cs.size(); k-- > 0 && ok;) ok = C->evalRec(cs[k], t) != 0;
            if (ok) {
                SH->modelHits++;
                std::vector<std::pair<u32, u64>> m;
                for (u32 v : vars) m.push_back({v, t[v]});
                build(m);
                cache[key] = {SAT_, m};
                return SAT_;
            }
        }
    std::vector<std::pair<u32, u64>> m;
    SR r = z3check(cs, fp, vars, m);
    if (r == SAT_) {
        // the evaluator must agree with the solver
        Model t;
        t.assign(vars.empty() ? 1 : vars.back() + 1, 0);
        for (auto& p : m) t[p.first] = p.second;
        C->newEval();
        for (E e : cs)
            if (!C->evalRec(e, t)) {
                if (fp) return UNK_; // e.g. NaN payload choices
                fprintf(stderr, "klsym: evaluator and solver disagree on %s\n", show(e).c_str());
                abort();
            }
        build(m);
        recent.push_back(m);
        if (recent.size() > 6) recent.erase(recent.begin());
    }
    if (r != UNK_) {
        if (cache.size() > 400000) cache.clear();
        cache[key] = {r, m};
    }
    return r;
}
