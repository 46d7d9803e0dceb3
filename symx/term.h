// Hash-consed bit-vector terms (width 1..64) with unsigned ranges and known-zero bits.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <algorithm>
#include <functional>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32;
enum Op : uint8_t { CONST, VAR, ADD, SUB, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR, CONCAT, EXTRACT, SEXT, ITE, EQ, ULT, SLT };
struct Node { Op op; uint8_t w; uint8_t flag; u32 id; Node *a, *b, *c; u64 k; u64 lo, hi, kz; u32 kids; };
static inline u64 MASK(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline i64 SX(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }
extern std::vector<Node *> g_nodes;
extern std::vector<Node *> g_vars;       // VAR nodes, k = index
extern std::vector<std::string> g_varname;
Node *mkConst(u64 v, unsigned w);
Node *mkVar(unsigned w, const std::string &name);
Node *mkBin(Op op, Node *a, Node *b);
Node *mkConcat(Node *hi, Node *lo);
Node *mkExtract(Node *t, unsigned lo, unsigned w);
Node *mkZext(Node *t, unsigned w);
Node *mkSext(Node *t, unsigned w);
Node *mkIte(Node *c, Node *a, Node *b);
Node *mkEq(Node *a, Node *b);
Node *mkUlt(Node *a, Node *b);
Node *mkSlt(Node *a, Node *b);
static inline Node *mkNot(Node *a) { return mkBin(XOR, a, mkConst(MASK(a->w), a->w)); }
static inline Node *mkTrue() { return mkConst(1, 1); }
static inline Node *mkFalse() { return mkConst(0, 1); }
static inline bool isC(Node *n) { return n->op == CONST; }
static inline bool isK(Node *n, u64 v) { return n->op == CONST && n->k == v; }
u64 foldBin(Op op, u64 a, u64 b, unsigned w);
void setVarRange(Node *v, u64 lo, u64 hi);

extern bool g_mod127;
Node *canon127(Node *n);
