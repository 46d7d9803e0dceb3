// validation of the term rewriting: random terms are built through the simplifying constructors and, step by
// step, compared with direct evaluation under random assignments (development aid, not part of a verdict)
#include "term.h"
#include "solve.h"
#include <random>
typedef std::map<u64, u64> Mdl;
int main(int argc, char **argv) {
    u64 seed = argc > 1 ? atoll(argv[1]) : 1; long rounds = argc > 2 ? atol(argv[2]) : 2000; g_mod127 = argc > 3;
    std::mt19937_64 R(seed);
    long checks = 0;
    for (long r = 0; r < rounds; r++) {
        struct V { Node *n; u64 v[6]; };
        std::vector<V> pool; Mdl m[6];
        auto addVar = [&](unsigned w, bool small) { Node *n = mkVar(w, "x"); u64 lo = 0, hi = MASK(w); if (small && w >= 7) { hi = R() % 3 ? 126 : R() % 2 ? 127 : 125; lo = R() % 2; setVarRange(n, lo, hi); } V v; v.n = n; for (int k = 0; k < 6; k++) { u64 x = R() % 4 == 0 ? (R() % 2 ? lo : hi) : lo + R() % (hi - lo + 1 ? hi - lo + 1 : ~0ull); v.v[k] = x; m[k][n->k] = x; } pool.push_back(v); };
        for (int i = 0; i < 5; i++) addVar((unsigned[]){1, 8, 8, 16, 16, 32, 64, 7}[R() % 8], R() % 2);
        int steps = 12 + R() % 30;
        for (int s = 0; s < steps; s++) {
            V a = pool[R() % pool.size()], b = pool[R() % pool.size()], c = pool[R() % pool.size()], o; 
            auto conv = [&](V x, unsigned w) { V y; bool sg = R() % 4 == 0; y.n = sg && w > x.n->w ? mkSext(x.n, w) : mkZext(x.n, w); for (int k = 0; k < 6; k++) y.v[k] = sg && w > x.n->w ? (u64)SX(x.v[k], x.n->w) & MASK(w) : x.v[k] & MASK(w); return y; };
            int op = R() % 28; unsigned w = a.n->w;
            if (op <= 12) {
                static const Op ops[] = {ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR};
                b = conv(b, w);
                if (R() % 3 == 0) { u64 k = (u64[]){0, 1, 127, 7, 126, 128, 255, 2, ~0ull, 254, 8, 516}[R() % 12] & MASK(w); b.n = mkConst(k, w); for (auto &x : b.v) x = k; }
                o.n = mkBin(ops[op], a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = foldBin(ops[op], a.v[k], b.v[k], w);
            } else if (op == 13) { if (a.n->w + b.n->w > 64) continue; o.n = mkConcat(a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = a.v[k] << b.n->w | b.v[k]; }
            else if (op == 14) { unsigned lo = R() % w, n = 1 + R() % (w - lo); o.n = mkExtract(a.n, lo, n); for (int k = 0; k < 6; k++) o.v[k] = (a.v[k] >> lo) & MASK(n); }
            else if (op == 15) { unsigned n = (unsigned[]){8, 16, 32, 64}[R() % 4]; o = conv(a, n); }
            else if (op <= 18) { b = conv(b, w); Node *cc = mkExtract(c.n, 0, 1); o.n = mkIte(cc, a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = (c.v[k] & 1) ? a.v[k] : b.v[k]; }
            else if (op == 19 || op == 20) { b = conv(b, w); if (R() % 2) { u64 k = R() % 4 ? R() % 130 : R(); k &= MASK(w); b.n = mkConst(k, w); for (auto &x : b.v) x = k; } o.n = mkEq(a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = a.v[k] == b.v[k]; }
            else if (op == 21) { b = conv(b, w); if (R() % 2) { u64 k = (R() % 130) & MASK(w); b.n = mkConst(k, w); for (auto &x : b.v) x = k; } if (R() % 2) std::swap(a, b); o.n = mkUlt(a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = a.v[k] < b.v[k]; }
            else if (op == 22) { b = conv(b, w); if (R() % 2) { u64 k = (R() % 130) & MASK(w); if (R() % 3 == 0) k = (0 - k) & MASK(w); b.n = mkConst(k, w); for (auto &x : b.v) x = k; } if (R() % 2) std::swap(a, b); o.n = mkSlt(a.n, b.n); for (int k = 0; k < 6; k++) o.v[k] = SX(a.v[k], w) < SX(b.v[k], w); }
            else if (op == 23) { // modular product and reductions the code uses
                Node *x = mkZext(mkExtract(a.n, 0, std::min(8u, w)), 16); V y = conv(b, 16); u64 xv; int which = R() % 4;
                Node *p = mkBin(MUL, x, mkZext(mkExtract(y.n, 0, 8), 16)); 
                for (int k = 0; k < 6; k++) { xv = ((a.v[k] & MASK(std::min(8u, w))) * (y.v[k] & 255)) & 0xffff; o.v[k] = which == 0 ? xv % 127 : which == 1 ? ((xv & 127) + (xv >> 7)) : which == 2 ? (127 + xv) % 127 : xv % 254; }
                if (which == 2) for (int k = 0; k < 6; k++) { xv = ((a.v[k] & MASK(std::min(8u, w))) * (y.v[k] & 255)) & 0xffff; o.v[k] = ((127 + xv) & 0xffff) % 127; }
                o.n = which == 0 ? mkBin(UREM, p, mkConst(127, 16)) : which == 1 ? mkBin(ADD, mkBin(AND, p, mkConst(127, 16)), mkBin(LSHR, p, mkConst(7, 16))) : which == 2 ? mkBin(UREM, mkBin(ADD, mkConst(127, 16), p), mkConst(127, 16)) : mkBin(UREM, p, mkConst(254, 16));
            } else if (op == 24) { // x + ((x + 1) >> 7) low 7 bits, on 8 bits
                V x = conv(a, 8); Node *t = mkBin(AND, mkBin(LSHR, mkBin(ADD, x.n, mkConst(1, 8)), mkConst(7, 8)), mkConst(1, 8)); o.n = mkBin(AND, mkBin(ADD, x.n, t), mkConst(127, 8));
                for (int k = 0; k < 6; k++) o.v[k] = (x.v[k] + (((x.v[k] + 1) & 255) >> 7)) & 127;
            } else if (op == 25) { V x = conv(a, 8); Node *t = mkBin(LSHR, x.n, mkConst(7, 8)); o.n = mkBin(AND, mkBin(ADD, x.n, t), mkConst(127, 8)); for (int k = 0; k < 6; k++) o.v[k] = (x.v[k] + (x.v[k] >> 7)) & 127; }
            else if (op == 26) { // conditional subtraction
                V x = conv(a, 16); o.n = mkIte(mkUlt(x.n, mkConst(127, 16)), x.n, mkBin(SUB, x.n, mkConst(127, 16))); for (int k = 0; k < 6; k++) o.v[k] = x.v[k] < 127 ? x.v[k] : x.v[k] - 127; }
            else { // table of multiples
                V x = conv(a, 8), y = conv(b, 8); y.n = mkBin(UREM, y.n, mkConst(127, 8)); Node *t = mkConst(0, 8);
                for (int k = 126; k >= 0; k--) { Node *e = mkZext(mkBin(UREM, mkBin(MUL, mkZext(y.n, 16), mkConst(k, 16)), mkConst(127, 16)), 8); t = mkIte(mkEq(x.n, mkConst(k, 8)), e, t); }
                o.n = t; for (int k = 0; k < 6; k++) { u64 yy = y.v[k] % 127; o.v[k] = x.v[k] <= 126 ? yy * x.v[k] % 127 : 0; }
            }
            for (int k = 0; k < 6; k++) {
                u64 e; { Mdl &mm = m[k]; e = evalModel(o.n, mm); }
                checks++;
                if (e != o.v[k] || e < o.n->lo || e > o.n->hi || (e & o.n->kz & MASK(o.n->w))) { printf("MISMATCH round %ld step %d op %d width %d: %llx want %llx range %llx..%llx kz %llx\n", r, s, op, o.n->w, (unsigned long long)e, (unsigned long long)o.v[k], (unsigned long long)o.n->lo, (unsigned long long)o.n->hi, (unsigned long long)o.n->kz); return 1; }
            }
            pool.push_back(o);
        }
    }
    printf("ok: %ld comparisons, %zu terms\n", checks, g_nodes.size());
}
