#include "solve.h"
#include "z3.h"
#include <chrono>
#include <unordered_set>
bool g_nothreads = false; long g_queries = 0; double g_solver_s = 0;
static Z3_context C; static std::vector<Z3_ast> memo, memob; // bit-vector / boolean translations by node id
static void init() { if (C) return; Z3_config cfg = Z3_mk_config(); C = Z3_mk_context(cfg); }
static Z3_ast bv(Node *n); static Z3_ast bo(Node *n);
static Z3_ast num(u64 v, unsigned w) { return Z3_mk_unsigned_int64(C, v, Z3_mk_bv_sort(C, w)); }
static Z3_ast getbv(Node *n) { return memo[n->id]; }
// children first, without deep recursion
static void translate(Node *root) {
    std::vector<std::pair<Node *, int>> st; st.push_back({root, 0});
    if (memo.size() < g_nodes.size()) { memo.resize(g_nodes.size(), nullptr); memob.resize(g_nodes.size(), nullptr); }
    while (!st.empty()) {
        auto &t = st.back(); Node *n = t.first;
        if (memo[n->id]) { st.pop_back(); continue; }
        if (t.second == 0) { t.second = 1; Node *k[3] = {n->a, n->b, n->c}; for (Node *x : k) if (x && !memo[x->id]) st.push_back({x, 0}); continue; }
        st.pop_back();
        memo[n->id] = bv(n);
    }
}
static Z3_ast B2V(Z3_ast b) { return Z3_mk_ite(C, b, num(1, 1), num(0, 1)); }
static Z3_ast V2B(Node *n) { if (!memob[n->id]) memob[n->id] = Z3_mk_eq(C, memo[n->id], num(1, 1)); return memob[n->id]; }
static Z3_ast bo(Node *n) { return V2B(n); }
static Z3_ast bv(Node *n) {
    Z3_ast a = n->a ? getbv(n->a) : nullptr, b = n->b ? getbv(n->b) : nullptr, c = n->c ? getbv(n->c) : nullptr;
    auto setb = [&](Z3_ast x) { memob[n->id] = x; return B2V(x); };
    switch (n->op) {
    case CONST: return num(n->k, n->w);
    case VAR: return Z3_mk_const(C, Z3_mk_int_symbol(C, (int)n->k), Z3_mk_bv_sort(C, n->w));
    case ADD: return Z3_mk_bvadd(C, a, b); case SUB: return Z3_mk_bvsub(C, a, b); case MUL: return Z3_mk_bvmul(C, a, b);
    case UDIV: return Z3_mk_bvudiv(C, a, b); case UREM: return Z3_mk_bvurem(C, a, b); case SDIV: return Z3_mk_bvsdiv(C, a, b); case SREM: return Z3_mk_bvsrem(C, a, b);
    case AND: if (n->w == 1) { Z3_ast x[2] = {bo(n->a), bo(n->b)}; return setb(Z3_mk_and(C, 2, x)); } return Z3_mk_bvand(C, a, b);
    case OR: if (n->w == 1) { Z3_ast x[2] = {bo(n->a), bo(n->b)}; return setb(Z3_mk_or(C, 2, x)); } return Z3_mk_bvor(C, a, b);
    case XOR: if (n->w == 1) { if (isK(n->b, 1)) return setb(Z3_mk_not(C, bo(n->a))); return setb(Z3_mk_xor(C, bo(n->a), bo(n->b))); } return Z3_mk_bvxor(C, a, b);
    case SHL: return Z3_mk_bvshl(C, a, b); case LSHR: return Z3_mk_bvlshr(C, a, b); case ASHR: return Z3_mk_bvashr(C, a, b);
    case CONCAT: return Z3_mk_concat(C, a, b);
    case EXTRACT: return Z3_mk_extract(C, (unsigned)n->k + n->w - 1, (unsigned)n->k, a);
    case SEXT: return Z3_mk_sign_ext(C, n->w - n->a->w, a);
    case ITE: if (n->w == 1) return setb(Z3_mk_ite(C, bo(n->a), bo(n->b), bo(n->c))); return Z3_mk_ite(C, bo(n->a), b, c);
    case EQ: return setb(Z3_mk_eq(C, a, b));
    case ULT: return setb(Z3_mk_bvult(C, a, b));
    case SLT: return setb(Z3_mk_bvslt(C, a, b));
    }
    return nullptr;
}
static void varsOf(const std::vector<Node *> &q, std::vector<Node *> &vars) {
    std::unordered_set<u32> seen; std::vector<Node *> st(q.begin(), q.end());
    while (!st.empty()) { Node *n = st.back(); st.pop_back(); if (!n || !seen.insert(n->id).second) continue; if (n->op == VAR) vars.push_back(n); st.push_back(n->a); st.push_back(n->b); st.push_back(n->c); }
}
// large queries: a few valuations are tried as models before the solver is asked (a hit is a genuine model)
static bool guessModel(const std::vector<Node *> &q, std::map<u64, u64> *model) {
    std::vector<Node *> order, vars; std::unordered_map<u32, u32> pos; std::vector<std::pair<Node *, int>> st;
    for (Node *r : q) {
        st.push_back({r, 0});
        while (!st.empty()) {
            auto &t = st.back(); Node *n = t.first;
            if (pos.count(n->id)) { st.pop_back(); continue; }
            if (t.second == 0) { t.second = 1; Node *k[3] = {n->a, n->b, n->c}; for (Node *x : k) if (x && !pos.count(x->id)) st.push_back({x, 0}); continue; }
            st.pop_back(); pos[n->id] = order.size(); order.push_back(n); if (n->op == VAR) vars.push_back(n);
            if (order.size() > 300000) return false;
        }
    }
    if (order.size() < 3000) return false;
    std::vector<u64> val(order.size()); u64 seed = 0x9E3779B97F4A7C15ull;
    for (int tries = 0; tries < 5; tries++) {
        for (size_t i = 0; i < order.size(); i++) {
            Node *n = order[i]; u64 a = n->a ? val[pos[n->a->id]] : 0, b = n->b ? val[pos[n->b->id]] : 0, c = n->c ? val[pos[n->c->id]] : 0, r = 0;
            switch (n->op) {
            case CONST: r = n->k; break;
            case VAR: seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; r = tries == 0 ? n->lo : tries == 1 ? n->hi : n->hi - n->lo == ~0ull ? seed : n->lo + seed % (n->hi - n->lo + 1); break;
            case CONCAT: r = (a << n->b->w) | b; break;
            case EXTRACT: r = (a >> n->k) & MASK(n->w); break;
            case SEXT: r = (u64)SX(a, n->a->w) & MASK(n->w); break;
            case ITE: r = a ? b : c; break;
            case EQ: r = a == b; break; case ULT: r = a < b; break; case SLT: r = SX(a, n->a->w) < SX(b, n->b->w); break;
            default: r = foldBin(n->op, a, b, n->w);
            }
            val[i] = r;
        }
        bool all = true; for (Node *r : q) all = all && val[pos[r->id]];
        if (all) { if (model) for (Node *v : vars) (*model)[v->k] = val[pos[v->id]]; return true; }
    }
    return false;
}
int solveSat(const std::vector<Node *> &q0, long timeout_ms, std::map<u64, u64> *model) {
    init();
    std::vector<Node *> q;
    for (Node *n : q0) { if (isK(n, 0)) return 0; if (!isC(n)) q.push_back(n); }
    std::vector<Node *> vars; varsOf(q, vars);
    if (q.empty()) { return 1; }
    auto t0 = std::chrono::steady_clock::now();
    g_queries++;
    if (model && guessModel(q, model)) { g_solver_s += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); return 1; }
    Z3_tactic names[6]; const char *tn[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"};
    static Z3_tactic tac = nullptr;
    if (!tac) { for (int i = 0; i < 6; i++) { names[i] = Z3_mk_tactic(C, tn[i]); Z3_tactic_inc_ref(C, names[i]); } tac = names[5]; for (int i = 4; i >= 0; i--) { tac = Z3_tactic_and_then(C, names[i], tac); Z3_tactic_inc_ref(C, tac); } }
    Z3_solver s = Z3_mk_solver_from_tactic(C, tac); Z3_solver_inc_ref(C, s);
    Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); if (g_nothreads) Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "rlimit"), (unsigned)std::min<long>(timeout_ms * 5000L, 4000000000L)); /* path mode forks: a resource limit instead of z3's timer threads */
    else Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), (unsigned)timeout_ms); Z3_solver_set_params(C, s, p);
    for (Node *n : q) { translate(n); Z3_solver_assert(C, s, bo(n)); }
    for (Node *v : vars) {
        translate(v);
        if (v->lo > 0) Z3_solver_assert(C, s, Z3_mk_bvuge(C, memo[v->id], num(v->lo, v->w)));
        if (v->hi < MASK(v->w)) Z3_solver_assert(C, s, Z3_mk_bvule(C, memo[v->id], num(v->hi, v->w)));
    }
    Z3_lbool r = Z3_solver_check(C, s);
    int res = r == Z3_L_FALSE ? 0 : r == Z3_L_TRUE ? 1 : 2;
    if (res == 1 && model) {
        Z3_model m = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, m);
        for (Node *v : vars) { Z3_ast o; if (Z3_model_eval(C, m, memo[v->id], true, &o)) { u64 x = 0; if (Z3_get_numeral_uint64(C, o, (uint64_t *)&x)) (*model)[v->k] = x; } }
        Z3_model_dec_ref(C, m);
    }
    if (getenv("SYMX_SMT2") && (res == 2)) { static int nn = 0; FILE *f = fopen((std::string(getenv("SYMX_SMT2")) + std::to_string(nn++) + ".smt2").c_str(), "w"); fprintf(f, "%s\n(check-sat)\n", Z3_solver_to_string(C, s)); fclose(f); }
    Z3_params_dec_ref(C, p); Z3_solver_dec_ref(C, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    g_solver_s += dt;
    if (dt > 5 && getenv("SYMX_DEBUG")) { size_t cnt = 0; std::unordered_set<u32> seen; std::vector<Node *> st(q.begin(), q.end()); while (!st.empty()) { Node *n = st.back(); st.pop_back(); if (!n || !seen.insert(n->id).second) continue; cnt++; st.push_back(n->a); st.push_back(n->b); st.push_back(n->c); } fprintf(stderr, "slow query %.1fs: %zu terms, %zu vars, %zu conjuncts -> %d\n", dt, cnt, vars.size(), q.size(), res); }
    return res;
}
// ---- context-free lemmas: the same formula up to renaming of its variables (with equal ranges)
static std::unordered_map<std::string, int> shapes;
static bool sig(Node *root, std::string &out) {
    std::unordered_map<u32, u32> num; std::vector<std::pair<Node *, int>> st; st.push_back({root, 0});
    auto put = [&](u64 v) { out.append((const char *)&v, 8); };
    while (!st.empty()) {
        auto &t = st.back(); Node *n = t.first;
        if (num.count(n->id)) { st.pop_back(); continue; }
        if (t.second == 0) { t.second = 1; Node *k[3] = {n->c, n->b, n->a}; for (Node *x : k) if (x && !num.count(x->id)) st.push_back({x, 0}); continue; }
        st.pop_back();
        u32 id = num.size(); num[n->id] = id;
        if (num.size() > 4000) return false;
        put(n->op | (u64)n->w << 8);
        if (n->op == VAR) { put(n->lo); put(n->hi); }
        else { if (n->op == CONST || n->op == EXTRACT) put(n->k); if (n->a) put(num[n->a->id]); if (n->b) put(num[n->b->id]); if (n->c) put(num[n->c->id]); }
    }
    return true;
}
int shapeLookup(Node *n) { std::string s; if (!sig(n, s)) return -1; auto it = shapes.find(s); return it == shapes.end() ? -1 : it->second; }
void shapeStore(Node *n, int r) { std::string s; if (sig(n, s)) shapes[s] = r; }
u64 evalModel(Node *root, const std::map<u64, u64> &m) {
    static std::unordered_map<u32, u64> val; static const std::map<u64, u64> *last = nullptr;
    if (last != &m) { val.clear(); last = &m; }
    std::vector<std::pair<Node *, int>> st; st.push_back({root, 0});
    while (!st.empty()) {
        auto &t = st.back(); Node *n = t.first;
        if (val.count(n->id)) { st.pop_back(); continue; }
        if (t.second == 0) { t.second = 1; Node *k[3] = {n->a, n->b, n->c}; for (Node *x : k) if (x && !val.count(x->id)) st.push_back({x, 0}); continue; }
        st.pop_back();
        u64 a = n->a ? val[n->a->id] : 0, b = n->b ? val[n->b->id] : 0, c = n->c ? val[n->c->id] : 0, r = 0;
        switch (n->op) {
        case CONST: r = n->k; break;
        case VAR: { auto it = m.find(n->k); r = it == m.end() ? n->lo : it->second; break; }
        case CONCAT: r = (a << n->b->w) | b; break;
        case EXTRACT: r = (a >> n->k) & MASK(n->w); break;
        case SEXT: r = (u64)SX(a, n->a->w) & MASK(n->w); break;
        case ITE: r = a ? b : c; break;
        case EQ: r = a == b; break; case ULT: r = a < b; break; case SLT: r = SX(a, n->a->w) < SX(b, n->b->w); break;
        default: r = foldBin(n->op, a, b, n->w);
        }
        val[n->id] = r;
    }
    return val[root->id];
}
