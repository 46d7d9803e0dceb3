// Canonical form of terms that are residues modulo 127: every term gets (lazily) a polynomial over GF(127)
// to which its unsigned value is congruent; terms that are provably in 0..126 and congruent are shared.
#include "term.h"
#include "solve.h"
#include <map>
#include <memory>
bool g_mod127 = false;
static const unsigned P = 127;
typedef std::vector<std::pair<u32, unsigned>> Mono;       // (atom node id, exponent)
static std::map<Mono, u32> monoId; static std::vector<Mono> monos;
typedef std::vector<std::pair<u32, unsigned>> Poly;       // (monomial, coefficient 1..126), sorted
static std::map<Poly, u32> polyId; static std::vector<const Poly *> polys;
static std::vector<int> ofNode;                            // poly by node id, -1 unknown
static std::unordered_map<u32, Node *> rep;                // poly -> canonical node
static const size_t LIMIT = 160;
static u32 internMono(const Mono &m) { auto it = monoId.find(m); if (it != monoId.end()) return it->second; u32 k = monos.size(); monoId[m] = k; monos.push_back(m); return k; }
static u32 intern(const Poly &p) { auto r = polyId.emplace(p, polys.size()); if (r.second) polys.push_back(&r.first->first); return r.first->second; }
static u32 constPoly(u64 k) { k %= P; Poly p; if (k) p.push_back({internMono({}), (unsigned)k}); return intern(p); }
static u32 atomPoly(Node *n) { return intern({{internMono({{n->id, 1}}), 1u}}); }
static u32 addP(u32 a, u32 b, unsigned kb) { // a + kb * b
    const Poly &x = *polys[a], &y = *polys[b]; Poly r; size_t i = 0, j = 0;
    kb %= P;
    while (i < x.size() || j < y.size()) {
        if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
        else if (i >= x.size() || y[j].first < x[i].first) { unsigned c = y[j].second * kb % P; if (c) r.push_back({y[j].first, c}); j++; }
        else { unsigned c = (x[i].second + y[j].second * kb) % P; if (c) r.push_back({x[i].first, c}); i++; j++; }
    }
    return intern(r);
}
static u32 mulMono(u32 a, u32 b) {
    const Mono x = monos[a], y = monos[b]; Mono r; size_t i = 0, j = 0;
    auto put = [&](u32 at, unsigned e) { while (e > 126) e -= 126; if (e == 126 && g_nodes[at]->lo >= 1 && g_nodes[at]->hi <= 126) return; r.push_back({at, e}); };
    while (i < x.size() || j < y.size()) {
        if (j >= y.size() || (i < x.size() && x[i].first < y[j].first)) { put(x[i].first, x[i].second); i++; }
        else if (i >= x.size() || y[j].first < x[i].first) { put(y[j].first, y[j].second); j++; }
        else { put(x[i].first, x[i].second + y[j].second); i++; j++; }
    }
    return internMono(r);
}
static int mulP(u32 a, u32 b) { // -1: too large
    if (polys[a]->size() * polys[b]->size() > LIMIT) return -1;
    std::map<u32, unsigned> acc; const Poly x = *polys[a], y = *polys[b];
    for (auto &p : x) for (auto &q : y) { unsigned &c = acc[mulMono(p.first, q.first)]; c = (c + p.second * q.second) % P; }
    Poly r; for (auto &p : acc) if (p.second) r.push_back(p);
    return intern(r);
}
static unsigned pow2(unsigned e) { return 1u << (e % 7); }
// cone lemma: n is a function of the single term x, and n == x mod 127 for every value of x in its range (decided by the solver)
static Node *subst(Node *n, Node *x, Node *v, std::unordered_map<u32, Node *> &memo) {
    if (n == x) return v; if (isC(n)) return n; auto it = memo.find(n->id); if (it != memo.end()) return it->second;
    Node *a = n->a ? subst(n->a, x, v, memo) : 0, *b = n->b ? subst(n->b, x, v, memo) : 0, *c = n->c ? subst(n->c, x, v, memo) : 0, *r;
    switch (n->op) {
    case VAR: r = n; break;
    case CONCAT: r = mkConcat(a, b); break; case EXTRACT: r = mkExtract(a, n->k, n->w); break; case SEXT: r = mkSext(a, n->w); break;
    case ITE: r = mkIte(a, b, c); break; case EQ: r = mkEq(a, b); break; case ULT: r = mkUlt(a, b); break; case SLT: r = mkSlt(a, b); break;
    default: r = mkBin(n->op, a, b);
    }
    memo[n->id] = r; return r;
}
static std::map<std::string, bool> coneCache;
static bool coneSig(Node *root, Node *x, std::string &out) {
    std::unordered_map<u32, u32> num; std::vector<std::pair<Node *, int>> st; st.push_back({root, 0});
    auto put = [&](u64 v) { out.append((const char *)&v, 8); };
    while (!st.empty()) {
        auto &t = st.back(); Node *n = t.first;
        if (num.count(n->id)) { st.pop_back(); continue; }
        if (n == x) { st.pop_back(); num[n->id] = num.size(); put(~0ull); put(n->w); put(n->lo); put(n->hi); continue; }
        if (t.second == 0) { t.second = 1; Node *k[3] = {n->c, n->b, n->a}; for (Node *y : k) if (y && !num.count(y->id)) st.push_back({y, 0}); continue; }
        st.pop_back(); u64 id = num.size(); num[n->id] = id;
        if (num.size() > 64) return false;
        put(n->op | (u64)n->w << 8); if (n->op == VAR) return false;
        if (n->op == CONST || n->op == EXTRACT) put(n->k);
        if (n->a) put(num[n->a->id]); if (n->b) put(num[n->b->id]); if (n->c) put(num[n->c->id]);
    }
    return true;
}
static bool inCone = false;
// one lemma: n, with x replaced by 'by', equals 'val' modulo 127 for all values of the fresh variables in it
static bool coneLemma(Node *n, Node *x, Node *by, Node *val) {
    std::unordered_map<u32, Node *> memo; Node *m = subst(n, x, by, memo);
    unsigned w = std::max(n->w, val->w);
    Node *ne = mkNot(mkEq(mkZext(m, w), mkBin(UREM, mkZext(val, w), mkConst(P, w))));
    return isK(ne, 0) || (!isC(ne) && solveSat({ne}, 5000, nullptr) == 0);
}
static unsigned coneMul; // n == coneMul * (result of coneOf) mod 127
static Node *coneOf(Node *n) {
    coneMul = 1;
    std::vector<Node *> fr; auto add = [&](Node *x) { if (!x || isC(x)) return; for (Node *y : fr) if (y == x) return; fr.push_back(x); };
    add(n); int steps = 0, found = 0;
    while (steps++ < 24) {
        size_t bi = 0; for (size_t i = 1; i < fr.size(); i++) if (fr[i]->id > fr[bi]->id) bi = i;
        Node *t = fr[bi]; fr.erase(fr.begin() + bi);
        if (t->op == VAR) return nullptr;
        add(t->a); add(t->b); add(t->c);
        if (fr.empty() || fr.size() > 6) return nullptr;
        if (fr.size() == 1) {
            Node *x = fr[0];
            if (x->hi <= 126 && x->w <= 8 && x->w >= 7) { // a field element: n == k * x for a constant k?
                std::string s; if (!coneSig(n, x, s)) return nullptr;
                s += "k"; auto it = coneCache.find(s); bool ok; static std::map<std::string, unsigned> ks;
                if (it != coneCache.end()) ok = it->second;
                else {
                    inCone = true;
                    std::unordered_map<u32, Node *> memo; Node *one = subst(n, x, mkConst(1, x->w), memo);
                    ok = isC(one) && one->k >= 1 && one->k <= 126 && x->hi > 1;
                    if (ok) { ks[s] = one->k; Node *v = mkVar(x->w, "cone"); setVarRange(v, x->lo, x->hi); ok = coneLemma(n, x, v, mkBin(MUL, mkZext(v, 16), mkConst(one->k, 16))); }
                    inCone = false; coneCache[s] = ok;
                }
                if (ok) { coneMul = ks[s]; return x; }
                if (found++) return nullptr;
            }
            if (x->hi >= 127 && x->hi <= 65535 && x->w <= 16) {
                std::string s; if (!coneSig(n, x, s)) return nullptr;
                auto it = coneCache.find(s); bool ok;
                if (it != coneCache.end()) ok = it->second;
                else {
                    inCone = true;
                    Node *v = mkVar(x->w, "cone"); setVarRange(v, x->lo, x->hi);
                    std::unordered_map<u32, Node *> memo; Node *m = subst(n, x, v, memo);
                    unsigned w = std::max(n->w, x->w);
                    Node *ne = mkNot(mkEq(mkZext(m, w), mkBin(UREM, mkZext(v, w), mkConst(P, w))));
                    ok = isK(ne, 0) || (!isC(ne) && solveSat({ne}, 5000, nullptr) == 0);
                    inCone = false;
                    coneCache[s] = ok;
                }
                if (ok) return x;
                if (x->op == MUL && !isC(x->b) && x->a != x->b && x->a->hi <= 126 && x->b->hi <= 126 && x->w >= 14) { // a product of two field elements
                    s += "p"; u64 rg[4] = {x->a->lo, x->a->hi, x->b->lo, x->b->hi}; s.append((const char *)rg, sizeof rg);
                    auto i2 = coneCache.find(s);
                    if (i2 != coneCache.end()) ok = i2->second;
                    else {
                        inCone = true;
                        Node *v = mkVar(7, "cone"), *u = mkVar(7, "cone"); setVarRange(v, x->a->lo, x->a->hi); setVarRange(u, x->b->lo, x->b->hi);
                        Node *pr = mkBin(MUL, mkZext(v, x->w), mkZext(u, x->w));
                        ok = coneLemma(n, x, pr, pr);
                        inCone = false; coneCache[s] = ok;
                    }
                    if (ok) return x;
                }
                if (++found > 3) return nullptr;
            }
        }
    }
    return nullptr;
}
static void setPoly(Node *n, int p) { if (ofNode.size() <= n->id) ofNode.resize(std::max<size_t>(n->id + 1, g_nodes.size() * 2), -1); ofNode[n->id] = p; }
static int depthGuard = 0;
static int polyOf(Node *n);
static int compute(Node *n) {
    u64 m = MASK(n->w);
    switch (n->op) {
    case CONST: return constPoly(n->k);
    case VAR: return atomPoly(n);
    case ADD:
        if ((__uint128_t)n->a->hi + n->b->hi <= m) return addP(polyOf(n->a), polyOf(n->b), 1);
        if (isC(n->b)) { u64 neg = (0 - n->b->k) & m; if (n->a->lo >= neg) return addP(polyOf(n->a), constPoly(neg), P - 1); }
        break;
    case OR: if ((~n->a->kz & ~n->b->kz & m) == 0) return addP(polyOf(n->a), polyOf(n->b), 1); break;
    case SUB: if (n->a->lo >= n->b->hi) return addP(polyOf(n->a), polyOf(n->b), P - 1); break;
    case MUL: if ((__uint128_t)n->a->hi * n->b->hi <= m) {
            int x = polyOf(n->a), y = polyOf(n->b), r = mulP(x, y);
            if (r < 0) { int xa = atomPoly(n->a), yb = atomPoly(n->b); r = mulP(xa, y); int r2 = mulP(x, yb); if (r < 0 || (r2 >= 0 && polys[x]->size() < polys[y]->size())) r = r2; if (r < 0) r = mulP(xa, yb); }
            return r; }
        break;
    case UREM: if (isC(n->b) && n->b->k % P == 0) return polyOf(n->a); break;
    case CONCAT: if (n->a->w && n->b->w < 64) return addP(polyOf(n->b), polyOf(n->a), pow2(n->b->w)); break;
    case EXTRACT: // value = a - 2^w * (a >> w) for the low w bits
        if (n->k == 0 && n->a->hi > m && n->w < 16) { Node *h = mkExtract(n->a, n->w, n->a->w - n->w); return addP(polyOf(n->a), polyOf(h), P - pow2(n->w)); }
        if (n->k == 0) return polyOf(n->a);
        if (n->k && n->k + n->w == n->a->w) break;
        break;
    case ITE: {
        int x = polyOf(n->b), y = polyOf(n->c); if (x == y) return x;
        // a table indexed by one term: affine in the index?
        if (n->a->op == EQ && isC(n->a->b)) {
            Node *ix = n->a->a; std::vector<std::pair<u64, Node *>> tab; Node *t = n; std::map<u64, bool> seen;
            while (t->op == ITE && t->a->op == EQ && t->a->a == ix && isC(t->a->b)) { if (!seen.count(t->a->b->k)) { seen[t->a->b->k] = true; tab.push_back({t->a->b->k, t->b}); } t = t->c; }
            if (tab.size() >= 3 && ix->hi - ix->lo < 300) {
                u64 missing = 0, mv = 0; for (u64 v = ix->lo; v <= ix->hi; v++) if (!seen.count(v)) { missing++; mv = v; }
                if (missing > 1) { // the default leaf serves several values
                    for (u64 v = ix->lo; v <= ix->hi; v++) if (!seen.count(v)) tab.push_back({v, t});
                } else if (missing == 1) tab.push_back({mv, t});
                auto &e0 = tab[0], &e1 = tab[1];
                int p0 = polyOf(e0.second), p1 = polyOf(e1.second);
                unsigned d = (unsigned)((e1.first + 127 * 1000 - e0.first) % P);
                if (d) {
                    unsigned inv = 1; for (unsigned k = 1; k < P; k++) if (k * d % P == 1) inv = k;
                    u32 slope = addP(constPoly(0), addP(p1, p0, P - 1), inv);
                    u32 icpt = addP(p0, slope, (unsigned)((P - e0.first % P) % P));
                    bool ok = true;
                    for (auto &e : tab) if (polyOf(e.second) != (int)addP(icpt, slope, (unsigned)(e.first % P))) { ok = false; break; }
                    if (ok) { int q = mulP(polyOf(ix), slope); if (q >= 0) return addP(icpt, q, 1); }
                }
                // inverse table: entry(c) * c == 1, entry(0) == 0
                bool inv = tab.size() >= 126;
                for (auto &e : tab) inv = inv && isC(e.second) && (e.first % P == 0 ? e.second->k % P == 0 : (e.first * e.second->k) % P == 1);
                if (inv) { u32 b = polyOf(ix), r = b; for (int k = 1; k < 125; k++) { int q = mulP(r, b); if (q < 0) { r = ~0u; break; } r = q; } if (r != ~0u) return r; }
            }
        }
        break; }
    default: break;
    }
    return atomPoly(n);
}
static int polyOf(Node *n) {
    if (ofNode.size() > n->id && ofNode[n->id] >= 0) return ofNode[n->id];
    if (depthGuard > 400) return atomPoly(n);
    depthGuard++; int p = compute(n); depthGuard--;
    setPoly(n, p);
    return p;
}
Node *canon127(Node *n) {
    if (n->flag & 1) return n;
    n->flag |= 1;
    if (inCone || isC(n) || n->op == VAR || n->w > 32 || n->w < 7 || n->hi > 127 || n->hi < 64) return n;
    Node *core = n; while (core->op == CONCAT && isK(core->a, 0)) core = core->b;
    if (core != n) { Node *c = canon127(core); return c == core ? n : mkZext(c, n->w); }
    bool below = n->hi <= 126; int p = -1;
    if (n->op == EXTRACT || n->op == SUB || n->op == ADD || n->op == ITE || n->op == OR) {
        if (Node *x = coneOf(n)) { p = addP(constPoly(0), polyOf(x), coneMul); below = true; if (n->hi > 126) n->hi = 126; }
    }
    if (!below) return n;
    if (p < 0) p = polyOf(n); else setPoly(n, p);
    const Poly &pp = *polys[p];
    if (pp.empty()) return mkConst(0, n->w);
    if (pp.size() == 1 && monos[pp[0].first].empty()) return mkConst(pp[0].second, n->w);
    if (pp.size() == 1 && pp[0].second == 1 && monos[pp[0].first].size() == 1 && monos[pp[0].first][0].second == 1) {
        Node *a = g_nodes[monos[pp[0].first][0].first];
        if (a == n) return n;
        if (a->hi <= 126) return mkZext(a, n->w);
    }
    auto it = rep.find(p);
    if (it == rep.end()) { rep[p] = n; return n; }
    return mkZext(it->second, n->w);
}
