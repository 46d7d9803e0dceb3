#include "term.h"
std::vector<Node *> g_nodes, g_vars;
std::vector<std::string> g_varname;
namespace {
struct Table {
    std::vector<Node *> t; size_t n = 0;
    Table() : t(1 << 20, nullptr) {}
    static u64 h(Op op, unsigned w, Node *a, Node *b, Node *c, u64 k) {
        u64 x = op * 0x9E3779B97F4A7C15ull + w * 0xD6E8FEB86659FD93ull + k * 0xC2B2AE3D27D4EB4Full;
        x ^= (a ? a->id + 1 : 0) * 0xA24BAED4963EE407ull; x = (x << 23) | (x >> 41);
        x ^= (b ? b->id + 1 : 0) * 0x9FB21C651E98DF25ull; x = (x << 29) | (x >> 35);
        x ^= (c ? c->id + 1 : 0) * 0xE7037ED1A0B428DBull; x ^= x >> 32; x *= 0xff51afd7ed558ccdull; return x ^ (x >> 29);
    }
    void grow() {
        std::vector<Node *> o; o.swap(t); t.assign(o.size() * 2, nullptr);
        for (Node *x : o) if (x) { size_t i = h(x->op, x->w, x->a, x->b, x->c, x->op == CONST || x->op == VAR || x->op == EXTRACT ? x->k : 0) & (t.size() - 1); while (t[i]) i = (i + 1) & (t.size() - 1); t[i] = x; }
    }
    Node **find(Op op, unsigned w, Node *a, Node *b, Node *c, u64 k) {
        size_t i = h(op, w, a, b, c, k) & (t.size() - 1);
        while (t[i]) { Node *x = t[i]; if (x->op == op && x->w == w && x->a == a && x->b == b && x->c == c && x->k == k) return &t[i]; i = (i + 1) & (t.size() - 1); }
        return &t[i];
    }
} tab;
std::unordered_map<u32, Node *> canonOf;
Node *pool = nullptr; size_t poolLeft = 0;
void range(Node *n);
Node *mk_(Op op, unsigned w, Node *a, Node *b, Node *c, u64 k) {
    Node **s = tab.find(op, w, a, b, c, k);
    if (*s) return *s;
    if (!poolLeft) { poolLeft = 1 << 15; pool = (Node *)malloc(sizeof(Node) * poolLeft); if (!pool) { fprintf(stderr, "out of memory\n"); exit(3); } }
    Node *n = pool++; poolLeft--;
    n->op = op; n->w = w; n->flag = 0; n->id = g_nodes.size(); n->a = a; n->b = b; n->c = c; n->k = k; n->kids = 0;
    range(n);
    g_nodes.push_back(n);
    *s = n;
    if (++tab.n * 2 > tab.t.size()) tab.grow();
    return n;
}
static inline Node *mk(Op op, unsigned w, Node *a, Node *b, Node *c, u64 k) {
    Node *n = mk_(op, w, a, b, c, k);
    if (n->lo == n->hi && op != CONST && op != VAR) return mkConst(n->lo, w);
    if (!g_mod127 || op == EQ || op == ULT || op == SLT || w < 7 || n->hi > 127) return n;
    if (n->flag & 2) return canonOf[n->id];
    Node *r = canon127(n); n->flag |= 2; canonOf[n->id] = r; return r;
}
void range(Node *n) {
    u64 m = MASK(n->w); n->lo = 0; n->hi = m; n->kz = ~m;
    Node *a = n->a, *b = n->b, *c = n->c;
    switch (n->op) {
    case CONST: n->lo = n->hi = n->k; n->kz = ~n->k; return;
    case ADD: { __uint128_t h = (__uint128_t)a->hi + b->hi; if (h <= m) { n->lo = a->lo + b->lo; n->hi = (u64)h; }
                else if (isC(b) ) { u64 neg = (0 - b->k) & m; if (a->lo >= neg) { n->lo = a->lo - neg; n->hi = a->hi - neg; } } break; }
    case SUB: if (a->lo >= b->hi) { n->lo = a->lo - b->hi; n->hi = a->hi - b->lo; } break;
    case MUL: { __uint128_t h = (__uint128_t)a->hi * b->hi; if (h <= m) { n->lo = a->lo * b->lo; n->hi = (u64)h; } break; }
    case UDIV: if (b->lo) { n->lo = a->lo / b->hi; n->hi = a->hi / b->lo; } break;
    case UREM: if (b->lo) { n->hi = b->hi - 1; if (a->hi < n->hi) n->hi = a->hi; } break;
    case AND: n->kz = a->kz | b->kz; n->hi = std::min(a->hi, b->hi); break;
    case OR: n->kz = a->kz & b->kz; n->lo = std::max(a->lo, b->lo); break;
    case XOR: n->kz = a->kz & b->kz; break;
    case SHL: if (isC(b) && b->k < n->w) { n->kz = (a->kz << b->k) | ((1ull << b->k) - 1); } break;
    case LSHR: n->hi = a->hi; if (isC(b) && b->k < n->w) { n->hi = a->hi >> b->k; n->lo = a->lo >> b->k; } break;
    case CONCAT: n->kz = (b->kz & MASK(b->w)) | (a->kz << b->w); n->lo = (a->lo << b->w) | b->lo; n->hi = (a->hi << b->w) | b->hi; break;
    case EXTRACT: n->kz = (a->kz >> n->k) | ~m; if ((a->hi >> n->k) <= m) { n->lo = a->lo >> n->k; n->hi = a->hi >> n->k; } break;
    case ITE: n->kz = b->kz & c->kz; n->lo = std::min(b->lo, c->lo); n->hi = std::max(b->hi, c->hi); break;
    default: break;
    }
    n->kz |= ~m;
    u64 mx = ~n->kz; if (n->hi > mx) n->hi = mx;
    if (n->hi < m) { unsigned bits = n->hi ? 64 - __builtin_clzll(n->hi) : 0; n->kz |= ~MASK(bits ? bits : 0) ; if (!bits) n->kz = ~0ull; }
    if (n->lo > n->hi) n->lo = n->hi; // unreachable value combination
}
struct Seg { Node *n; };
// splits a term into concat segments, low first
void segs(Node *n, std::vector<Node *> &out) {
    while (n->op == CONCAT) { segs(n->b, out); n = n->a; }
    out.push_back(n);
}
// split segment lists at common boundaries
bool align(Node *a, Node *b, std::vector<std::pair<Node *, Node *>> &out) {
    std::vector<Node *> x, y; segs(a, x); segs(b, y);
    size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
    while (i < x.size() && j < y.size()) {
        unsigned ri = x[i]->w - oi, rj = y[j]->w - oj, r = std::min(ri, rj);
        out.push_back({mkExtract(x[i], oi, r), mkExtract(y[j], oj, r)});
        oi += r; oj += r;
        if (oi == x[i]->w) { i++; oi = 0; }
        if (oj == y[j]->w) { j++; oj = 0; }
    }
    return true;
}
Node *joinSegs(const std::vector<Node *> &v) { Node *r = v[0]; for (size_t i = 1; i < v.size(); i++) r = mkConcat(v[i], r); return r; }
}
void setVarRange(Node *v, u64 lo, u64 hi) {
    if (lo > v->lo) v->lo = lo;
    if (hi < v->hi) v->hi = hi;
    if (v->hi < MASK(v->w)) { unsigned bits = v->hi ? 64 - __builtin_clzll(v->hi) : 0; v->kz |= bits ? ~MASK(bits) : ~0ull; }
}
Node *mkConst(u64 v, unsigned w) {
    static Node *small[65][256];
    v &= MASK(w);
    if (v < 256) { Node *&s = small[w][v]; if (!s) s = mk(CONST, w, 0, 0, 0, v); return s; }
    return mk(CONST, w, 0, 0, 0, v);
}
Node *mkVar(unsigned w, const std::string &name) {
    u64 k = g_vars.size(); Node *n = mk(VAR, w, 0, 0, 0, k); g_vars.push_back(n); g_varname.push_back(name); return n;
}
u64 foldBin(Op op, u64 a, u64 b, unsigned w) {
    u64 m = MASK(w); i64 sa = SX(a, w), sb = SX(b, w);
    switch (op) {
    case ADD: return (a + b) & m; case SUB: return (a - b) & m; case MUL: return (a * b) & m;
    case UDIV: return b ? a / b : m; case UREM: return b ? a % b : a;
    case SDIV: return !b ? (sa < 0 ? 1 : m) : (sb == -1 ? (0 - a) & m : (u64)(sa / sb) & m);
    case SREM: return !b ? a : (sb == -1 ? 0 : (u64)(sa % sb) & m);
    case AND: return a & b; case OR: return a | b; case XOR: return a ^ b;
    case SHL: return b >= w ? 0 : (a << b) & m; case LSHR: return b >= w ? 0 : a >> b;
    case ASHR: return (u64)(sa >> (b >= w ? w - 1 : b)) & m;
    default: abort();
    }
}
Node *mkExtract(Node *t, unsigned lo, unsigned w) {
    if (lo == 0 && w == t->w) return t;
    switch (t->op) {
    case CONST: return mkConst(t->k >> lo, w);
    case CONCAT: {
        unsigned bw = t->b->w;
        if (lo + w <= bw) return mkExtract(t->b, lo, w);
        if (lo >= bw) return mkExtract(t->a, lo - bw, w);
        return mkConcat(mkExtract(t->a, 0, lo + w - bw), mkExtract(t->b, lo, bw - lo));
    }
    case EXTRACT: return mkExtract(t->a, (unsigned)t->k + lo, w);
    case SEXT: if (lo + w <= t->a->w) return mkExtract(t->a, lo, w); break;
    case ITE: if ((isC(t->b) || isC(t->c)) || (t->b->op == CONCAT && t->c->op == CONCAT)) return mkIte(t->a, mkExtract(t->b, lo, w), mkExtract(t->c, lo, w)); break;
    default: break;
    }
    u64 m = MASK(w) << lo;
    if ((t->kz & m) == m) return mkConst(0, w);
    // drop known-zero high part
    if (lo + w <= 64) {
        u64 z = t->kz >> lo; unsigned keep = w;
        while (keep > 0 && ((z >> (keep - 1)) & 1)) keep--;
        if (keep < w) return mkConcat(mkConst(0, w - keep), mkExtract(t, lo, keep));
    }
    if ((t->op == AND || t->op == OR || t->op == XOR) && (isC(t->b) ? !(t->w == 64 && t->op == XOR) : w == 1 && t->w < 64)) return mkBin(t->op, mkExtract(t->a, lo, w), mkExtract(t->b, lo, w));
    return mk(EXTRACT, w, t, 0, 0, lo);
}
Node *mkConcat(Node *hi, Node *lo) {
    unsigned w = hi->w + lo->w;
    if (w > 64) { fprintf(stderr, "concat too wide\n"); exit(4); }
    if (isC(hi) && isC(lo)) return mkConst(hi->k << lo->w | lo->k, w);
    // right-nested normal form: the low operand is a leaf segment, high operand may be a concat
    if (lo->op == CONCAT) return mkConcat(mkConcat(hi, lo->a), lo->b);
    Node *h0 = hi->op == CONCAT ? hi->b : hi;
    Node *rest = hi->op == CONCAT ? hi->a : nullptr;
    Node *j = nullptr;
    if (isC(h0) && isC(lo)) j = mkConst(h0->k << lo->w | lo->k, h0->w + lo->w);
    else if (h0->op == EXTRACT && lo->op == EXTRACT && h0->a == lo->a && h0->k == lo->k + lo->w) j = mkExtract(h0->a, (unsigned)lo->k, h0->w + lo->w);
    else if (isK(h0, 0) && lo->op == EXTRACT && lo->k + lo->w + h0->w <= lo->a->w && ((lo->a->kz >> (lo->k + lo->w)) & MASK(h0->w)) == MASK(h0->w) && lo->k + lo->w + h0->w == lo->a->w && lo->k == 0 && !rest) return lo->a;
    else if (h0->op == ITE && lo->op == ITE && h0->a == lo->a) j = mkIte(h0->a, mkConcat(h0->b, lo->b), mkConcat(h0->c, lo->c));
    if (j) return rest ? mkConcat(rest, j) : j;
    return mk(CONCAT, w, hi, lo, 0, 0);
}
Node *mkZext(Node *t, unsigned w) {
    if (t->w == w) return t;
    if (w < t->w) return mkExtract(t, 0, w);
    if (isC(t)) return mkConst(t->k, w);
    return mkConcat(mkConst(0, w - t->w), t);
}
Node *mkSext(Node *t, unsigned w) {
    if (t->w == w) return t;
    if (isC(t)) return mkConst((u64)SX(t->k, t->w), w);
    if ((t->kz >> (t->w - 1)) & 1) return mkZext(t, w);
    if (t->w == 1) return mkIte(t, mkConst(~0ull, w), mkConst(0, w));
    return mk(SEXT, w, t, 0, 0, 0);
}
static bool isMask(u64 k, unsigned w, unsigned &lo, unsigned &n) { // one contiguous run of ones
    if (!k) return false;
    lo = __builtin_ctzll(k); u64 s = k >> lo; n = s == ~0ull ? 64 : __builtin_ctzll(~s);
    return (n >= 64 ? ~0ull : ((1ull << n) - 1)) == s && lo + n <= w;
}
static bool constChain(Node *n) { int k = 0; while (n->op == ITE && isC(n->b) && k++ < 300) n = n->c; return isC(n); }
static Node *pushConst(Node *n, Node *k) { // add a constant to every leaf of a chain of alternatives
    std::vector<std::pair<Node *, Node *>> v; while (n->op == ITE) { v.push_back({n->a, mkBin(ADD, n->b, k)}); n = n->c; }
    Node *r = mkBin(ADD, n, k); for (size_t i = v.size(); i-- > 0;) r = mkIte(v[i].first, v[i].second, r); return r;
}
// sums of 64-bit words over GF(2): flattened, sorted, cancelled, constant last
static void xleaves(Node *n, std::vector<Node *> &v) { while (n->op == XOR) { xleaves(n->b, v); n = n->a; } v.push_back(n); }
static Node *xorSum(Node *a, Node *b) {
    std::vector<Node *> v; xleaves(a, v); xleaves(b, v);
    if (v.size() > 2000) return nullptr;
    std::sort(v.begin(), v.end(), [](Node *x, Node *y) { return x->id < y->id; });
    u64 k = 0; std::vector<Node *> o;
    for (Node *n : v) { if (isC(n)) k ^= n->k; else if (!o.empty() && o.back() == n) o.pop_back(); else o.push_back(n); }
    if (o.empty()) return mkConst(k, 64);
    if (k) o.push_back(mkConst(k, 64));
    Node *r = o[0];
    for (size_t i = 1; i < o.size(); i++) r = mk(XOR, 64, r, o[i], 0, 0);
    return r;
}
static void conj(Node *n, std::vector<Node *> &v) { if (n->op == AND && v.size() < 64) { conj(n->a, v); conj(n->b, v); } else v.push_back(n); }
Node *mkBin(Op op, Node *a, Node *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
    u64 m = MASK(w);
    if (isC(a) && isC(b)) return mkConst(foldBin(op, a->k, b->k, w), w);
    bool comm = op == ADD || op == MUL || op == AND || op == OR || op == XOR;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    switch (op) {
    case ADD:
        if (isK(b, 0)) return a;
        if (isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, a->a, mkConst(a->b->k + b->k, w));
        if (isC(b) && a->op == SUB && isC(a->a)) return mkBin(SUB, mkConst(a->a->k + b->k, w), a->b);
        if ((~a->kz & ~b->kz) == 0) return mkBin(OR, a, b);
        if (isC(b) && a->op == ITE && constChain(a)) return pushConst(a, b);
        // (c + (x - y)) etc: keep constants outside
        if (!isC(b) && b->op == ADD && isC(b->b)) return mkBin(ADD, mkBin(ADD, a, b->a), b->b);
        if (!isC(b) && a->op == ADD && isC(a->b)) return mkBin(ADD, mkBin(ADD, a->a, b), a->b);
        if (b->op == SUB && b->b == a) return b->a;
        if (a->op == SUB && a->b == b) return a->a;
        break;
    case SUB:
        if (isK(b, 0)) return a;
        if (a == b) return mkConst(0, w);
        if (isC(b)) return mkBin(ADD, a, mkConst(0 - b->k, w));
        if (a->op == ADD && a->a == b) return a->b;
        if (a->op == ADD && a->b == b) return a->a;
        break;
    case MUL:
        if (isK(b, 0)) return b;
        if (isK(b, 1)) return a;
        if (isC(b) && (b->k & (b->k - 1)) == 0) return mkBin(SHL, a, mkConst(__builtin_ctzll(b->k), w));
        if (w == 1) return mkBin(AND, a, b);
        if (a->hi == 1 && !isC(a)) return mkIte(mkExtract(a, 0, 1), b, mkConst(0, w));
        if (b->hi == 1 && !isC(b)) return mkIte(mkExtract(b, 0, 1), a, mkConst(0, w));
        break;
    case UDIV:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(LSHR, a, mkConst(__builtin_ctzll(b->k), w));
        if (b->lo > a->hi) return mkConst(0, w);
        break;
    case UREM:
        if (isC(b) && b->k && (b->k & (b->k - 1)) == 0) return mkBin(AND, a, mkConst(b->k - 1, w));
        if (a->hi < b->lo) return a;
        // narrow: urem of values that fit in fewer bits
        if (isC(b) && w > 8 && a->hi < MASK(w)) {
            u64 mx = std::max(a->hi, b->k); unsigned n = 64 - __builtin_clzll(mx); n = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : 64;
            if (n < w) return mkZext(mkBin(UREM, mkExtract(a, 0, n), mkConst(b->k, n)), w);
        }
        break;
    case SDIV: case SREM:
        if (((a->kz >> (w - 1)) & 1) && ((b->kz >> (w - 1)) & 1)) return mkBin(op == SDIV ? UDIV : UREM, a, b);
        break;
    case AND: {
        if (isK(b, 0)) return b;
        if (isK(b, m)) return a;
        if (a == b) return a;
        if ((a->kz | b->kz | ~m) == ~0ull) return mkConst(0, w);
        if (w == 1) {
            if (a->op == XOR && isK(a->b, 1) && a->a == b) return mkFalse();
            if (b->op == XOR && isK(b->b, 1) && b->a == a) return mkFalse();
            break;
        }
        unsigned lo, n;
        if (isC(b)) {
            u64 k = b->k & ~a->kz; // bits that matter
            if (k != b->k) { if ((~a->kz & ~k & m) == 0) return a; return mkBin(AND, a, mkConst(k, w)); }
            if ((~a->kz & m & ~k) == 0) return a;
            if (isMask(k, w, lo, n)) { Node *r = mkExtract(a, lo, n); if (lo) r = mkConcat(r, mkConst(0, lo)); return mkZext(r, w); }
        }
        if (a->op == CONCAT || b->op == CONCAT) goto piecewise;
        break;
    }
    case OR: case XOR:
        if (isK(b, 0)) return a;
        if (op == XOR && w == 64 && !isC(b) && (a->op == XOR || b->op == XOR)) { Node *r = xorSum(a, b); if (r) return r; }
        if (a == b) return op == OR ? a : mkConst(0, w);
        if (op == OR && isK(b, m)) return b;
        if (op == XOR && isC(b) && a->op == XOR && isC(a->b)) return mkBin(XOR, a->a, mkConst(a->b->k ^ b->k, w));
        if (op == XOR && !isC(b)) { // pull constants out; cancel
            if (a->op == XOR && isC(a->b)) return mkBin(XOR, mkBin(XOR, a->a, b), a->b);
            if (b->op == XOR && isC(b->b)) return mkBin(XOR, mkBin(XOR, a, b->a), b->b);
            if (a->op == XOR && a->a == b) return a->b;
            if (a->op == XOR && a->b == b) return a->a;
            if (b->op == XOR && b->a == a) return b->b;
            if (b->op == XOR && b->b == a) return b->a;
        }
        if (w == 1) {
            if (op == OR && a->op == XOR && isK(a->b, 1) && a->a == b) return mkTrue();
            if (op == OR && b->op == XOR && isK(b->b, 1) && b->a == a) return mkTrue();
            break;
        }
        if (a->op == CONCAT || b->op == CONCAT) goto piecewise;
        break;
    case SHL: case LSHR: case ASHR:
        if (isK(b, 0)) return a;
        if (isK(a, 0)) return a;
        if (isC(b)) {
            u64 s = b->k;
            if (s >= w) return op == ASHR ? mkBin(ASHR, a, mkConst(w - 1, w)) : mkConst(0, w);
            if (op == SHL) return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
            if (op == LSHR || ((a->kz >> (w - 1)) & 1)) return mkZext(mkExtract(a, s, w - s), w);
        } else if (op == ASHR && ((a->kz >> (w - 1)) & 1)) return mkBin(LSHR, a, b);
        break;
    default: break;
    }
    return mk(op, w, a, b, 0, 0);
piecewise: {
    // worthwhile only if some piece simplifies
    std::vector<std::pair<Node *, Node *>> p; align(a, b, p);
    if (p.size() == 1) return mk(op, w, a, b, 0, 0);
    std::vector<Node *> r; bool gain = false;
    for (auto &x : p) if (isC(x.first) || isC(x.second) || x.first == x.second) gain = true;
    if (!gain) return mk(op, w, a, b, 0, 0);
    for (auto &x : p) r.push_back(mkBin(op, x.first, x.second));
    return joinSegs(r);
}
}
Node *mkIte(Node *c, Node *a, Node *b) {
    if (isC(c)) return c->k ? a : b;
    if (a == b) return a;
    if (c->op == XOR && isK(c->b, 1)) return mkIte(c->a, b, a);
    if (a->w == 1) {
        if (isK(a, 1) && isK(b, 0)) return c;
        if (isK(a, 0) && isK(b, 1)) return mkNot(c);
        if (isK(a, 1)) return mkBin(OR, c, b);
        if (isK(a, 0)) return mkBin(AND, mkNot(c), b);
        if (isK(b, 0)) return mkBin(AND, c, a);
        if (isK(b, 1)) return mkBin(OR, mkNot(c), a);
    }
    if (a->op == ITE && a->a == c) a = a->b;
    if (b->op == ITE && b->a == c) b = b->c;
    if (a == b) return a;
    // (ite c x (ite d x y)) -> (ite (or c d) x y)
    if (b->op == ITE && b->b == a) return mkIte(mkBin(OR, c, b->a), a, b->c);
    // booleans widened to words: ite(c, 0..01, 0..0)
    if (a->w > 1 && isK(a, 1) && isK(b, 0)) return mkZext(c, a->w);
    if (a->w > 1 && isK(a, 0) && isK(b, 1)) return mkZext(mkNot(c), a->w);
    if (a->op == CONCAT && b->op == CONCAT && a->b->w == b->b->w && (a->a == b->a || a->b == b->b)) return mkConcat(mkIte(c, a->a, b->a), mkIte(c, a->b, b->b));
    // shared zero high part
    if (a->w > 1 && !isC(a) + !isC(b) >= 1) {
        u64 z = a->kz & b->kz & MASK(a->w); unsigned keep = a->w;
        while (keep > 0 && ((z >> (keep - 1)) & 1)) keep--;
        if (keep > 0 && keep < a->w && a->op == CONCAT && (b->op == CONCAT || isC(b))) return mkZext(mkIte(c, mkExtract(a, 0, keep), mkExtract(b, 0, keep)), a->w);
        if (keep > 0 && keep < a->w && isC(a) && b->op == CONCAT) return mkZext(mkIte(c, mkExtract(a, 0, keep), mkExtract(b, 0, keep)), a->w);
    }
    return mk(ITE, a->w, c, a, b, 0);
}
static bool constLeaves(Node *n, int &budget) {
    if (--budget < 0) return false;
    if (isC(n)) return true;
    return n->op == ITE && constLeaves(n->b, budget) && constLeaves(n->c, budget);
}
static Node *pushCmp(Node *n, const std::function<Node *(Node *)> &f) {
    if (n->op != ITE) return f(n);
    Node *x = pushCmp(n->b, f), *y = pushCmp(n->c, f);
    return mkIte(n->a, x, y);
}
Node *mkEq(Node *a, Node *b) {
    if (a->w != b->w) { fprintf(stderr, "eq width mismatch\n"); abort(); }
    if (a == b) return mkTrue();
    if (isC(a) && isC(b)) return mkFalse();
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (a->hi < b->lo || b->hi < a->lo) return mkFalse();
    if (a->lo == a->hi && b->lo == b->hi) return mkConst(a->lo == b->lo, 1);
    if (isC(b) && (b->k & a->kz)) return mkFalse();
    if (a->w == 1) return mkNot(mkBin(XOR, a, b));
    if (isC(b)) {
        if (a->op == CONCAT) return mkBin(AND, mkEq(a->a, mkConst(b->k >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->k, a->b->w)));
        if (a->op == ADD && isC(a->b)) return mkEq(a->a, mkConst(b->k - a->b->k, a->w));
        if (a->op == XOR && isC(a->b)) return mkEq(a->a, mkConst(b->k ^ a->b->k, a->w));
        if (a->op == XOR && b->k == 0) return mkEq(a->a, a->b);
        if (a->op == SUB && b->k == 0) return mkEq(a->a, a->b);
        if (a->op == SUB && isC(a->a)) return mkEq(a->b, mkConst(a->a->k - b->k, a->w));
        if (a->op == OR && b->k == 0) return mkBin(AND, mkEq(a->a, b), mkEq(a->b, b));
        int budget = 64;
        if (a->op == ITE && constLeaves(a, budget)) { Node *k = b; return pushCmp(a, [k](Node *x) { return mkEq(x, k); }); }
        if (a->op == ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkEq(a->b, b), mkEq(a->c, b));
        if (a->op == SEXT) { u64 lowv = b->k & MASK(a->a->w); if (((u64)SX(lowv, a->a->w) & MASK(a->w)) != b->k) return mkFalse(); return mkEq(a->a, mkConst(lowv, a->a->w)); }
    } else {
        if (a->op == CONCAT && b->op == CONCAT) {
            std::vector<std::pair<Node *, Node *>> p; align(a, b, p);
            if (p.size() > 1) { Node *r = mkTrue(); for (auto &x : p) { r = mkBin(AND, r, mkEq(x.first, x.second)); if (isK(r, 0)) return r; } return r; }
        }
    }
    return mk(EQ, 1, a, b, 0, 0);
}
Node *mkUlt(Node *a, Node *b) {
    if (a == b) return mkFalse();
    if (isC(a) && isC(b)) return mkConst(a->k < b->k, 1);
    if (a->hi < b->lo) return mkTrue();
    if (a->lo >= b->hi) return mkFalse();
    if (a->w == 1) return mkBin(AND, mkNot(a), b);
    if (isK(b, 1)) return mkEq(a, mkConst(0, a->w));
    if (isK(a, 0)) return mkNot(mkEq(b, a));
    if (isC(b)) {
        u64 z = a->kz; unsigned keep = a->w; while (keep > 1 && ((z >> (keep - 1)) & 1)) keep--;
        if (keep < a->w && a->op == CONCAT) return mkUlt(mkExtract(a, 0, keep), mkConst(b->k, keep));   // b->k <= a->hi here
        int budget = 64;
        if (a->op == ITE && constLeaves(a, budget)) { Node *k = b; return pushCmp(a, [k](Node *x) { return mkUlt(x, k); }); }
    }
    if (isC(a)) {
        u64 z = b->kz; unsigned keep = b->w; while (keep > 1 && ((z >> (keep - 1)) & 1)) keep--;
        if (keep < b->w && b->op == CONCAT) return mkUlt(mkConst(a->k, keep), mkExtract(b, 0, keep));
        int budget = 64;
        if (b->op == ITE && constLeaves(b, budget)) { Node *k = a; return pushCmp(b, [k](Node *x) { return mkUlt(k, x); }); }
    }
    if (a->op == CONCAT && b->op == CONCAT && isK(a->a, 0) && isK(b->a, 0) && a->b->w == b->b->w) return mkUlt(a->b, b->b);
    return mk(ULT, 1, a, b, 0, 0);
}
Node *mkSlt(Node *a, Node *b) {
    if (a == b) return mkFalse();
    unsigned w = a->w;
    if (isC(a) && isC(b)) return mkConst(SX(a->k, w) < SX(b->k, w), 1);
    bool ap = (a->kz >> (w - 1)) & 1, bp = (b->kz >> (w - 1)) & 1;
    if (ap && bp) return mkUlt(a, b);
    if (isC(b) && (b->k >> (w - 1)) && ap) return mkFalse();
    if (isC(a) && (a->k >> (w - 1)) && bp) return mkTrue();
    if (isK(b, 0)) return mkExtract(a, w - 1, 1);
    if (isC(b) && b->k == MASK(w)) return mkBin(AND, mkExtract(a, w - 1, 1), mkNot(mkEq(a, b)));
    if (isC(a) && a->k == MASK(w)) return mkNot(mkExtract(b, w - 1, 1));
    if (isC(a) && a->k == 0) return mkBin(AND, mkNot(mkExtract(b, w - 1, 1)), mkNot(mkEq(b, a)));
    int budget = 64;
    if (isC(b) && a->op == ITE && constLeaves(a, budget)) { Node *k = b; return pushCmp(a, [k](Node *x) { return mkSlt(x, k); }); }
    budget = 64;
    if (isC(a) && b->op == ITE && constLeaves(b, budget)) { Node *k = a; return pushCmp(b, [k](Node *x) { return mkSlt(k, x); }); }
    return mk(SLT, 1, a, b, 0, 0);
}
