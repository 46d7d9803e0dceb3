#include <unistd.h>
// Symbolic executor for LLVM IR with state merging at post-dominators; assertions are decided with z3.
#include "term.h"
#include "solve.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/EarlyCSE.h"
#include "llvm/Transforms/Scalar/DCE.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include "llvm/Transforms/InstCombine/InstCombine.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <chrono>
#include <map>
#include <set>
#include <memory>
#include <sys/resource.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sstream>
#include <fstream>
#include <fcntl.h>
using namespace llvm;
using std::vector; using std::string;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static double t_start, t_limit = 600;
struct Fail { string what; };
[[noreturn]] static void unsupported(const string &s) { throw Fail{s}; }

// ------------------------------------------------------------------ memory
struct Page { int rc; Node *b[64]; };
struct PageRef {
    Page *p = nullptr;
    PageRef() {}
    PageRef(const PageRef &o) : p(o.p) { if (p) p->rc++; }
    PageRef &operator=(const PageRef &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
    ~PageRef() { drop(); }
    void drop() { if (p && --p->rc == 0) free(p); p = nullptr; }
    Page *own() { if (p->rc > 1) { Page *q = (Page *)malloc(sizeof(Page)); memcpy(q->b, p->b, sizeof q->b); q->rc = 1; p->rc--; p = q; } return p; }
    static PageRef make() { PageRef r; r.p = (Page *)malloc(sizeof(Page)); r.p->rc = 1; for (auto &x : r.p->b) x = nullptr; return r; }
};
struct Content { vector<PageRef> pages; };
struct ObjInfo { u64 base, size; string name; bool ro; bool lazy; };
static vector<ObjInfo> g_objs;
static std::map<u64, u32> g_objAt; // base -> object
static u64 g_next = 0x100000;
struct State {
    vector<std::shared_ptr<Content>> mem;
    vector<Node *> pc;
    vector<u32> freed;
};
static Node *c8[256];
static u32 newObj(State &st, u64 size, u64 align, const string &name, int fill) { // fill: -1 undefined, otherwise byte value
    if (align < 64) align = 64;
    g_next = (g_next + align - 1) / align * align;
    u32 id = g_objs.size();
    g_objs.push_back({g_next, size, name, false, fill < 0});
    g_objAt[g_next] = id;
    g_next += size + 4096;
    if (st.mem.size() <= id) st.mem.resize(id + 1);
    auto c = std::make_shared<Content>();
    c->pages.resize((size + 63) / 64);
    if (fill >= 0) { PageRef z = PageRef::make(); for (auto &x : z.p->b) x = c8[fill]; for (auto &p : c->pages) p = z; }
    else for (auto &p : c->pages) p = PageRef::make();
    st.mem[id] = c;
    return id;
}
static Content *own(State &st, u32 o) { auto &p = st.mem[o]; if (p.use_count() > 1) p = std::make_shared<Content>(*p); return p.get(); }
static Node *getByte(State &st, u32 o, u64 off) {
    Node *n = st.mem[o]->pages[off >> 6].p->b[off & 63];
    if (!n) { // first read of an undefined byte: one symbolic value for it
        n = mkVar(8, "undef:" + g_objs[o].name + "+" + std::to_string(off));
        own(st, o)->pages[off >> 6].own()->b[off & 63] = n;
    }
    return n;
}
static void setByte(State &st, u32 o, u64 off, Node *v) { own(st, o)->pages[off >> 6].own()->b[off & 63] = v; }
static int findObj(u64 addr) {
    auto it = g_objAt.upper_bound(addr);
    if (it == g_objAt.begin()) return -1;
    --it; u32 o = it->second;
    if (addr < g_objs[o].base + g_objs[o].size + 4096) return o;
    return -1;
}
// ------------------------------------------------------------------ reporting
struct Site { string msg; long count = 0, trivial = 0, solved = 0, cached = 0; int status = 0; }; // status 0 holds, 1 violated, 2 unknown
static std::map<string, Site> g_asserts;
static std::map<string, long> g_reach;
static std::set<string> g_funcs;
static long g_steps = 0, g_forks = 0, g_merges = 0;
static string g_violation; static std::map<u64, u64> g_model; static bool g_violated = false;
static u64 g_inAddr = 0, g_inSize = 0; static vector<Node *> g_inBytes;
struct Violated {};
// ---- path mode (--paths): every symbolic branch is followed separately, by forking this process;
// sides the solver refutes are dropped, the results of all paths are added up in the root process
static bool g_paths = false; static int g_jobs = 1;
struct Shared { volatile int done, running; volatile long paths; };
static Shared *g_sh = nullptr;
static int g_pipe = -1; static bool g_async = false; static string g_unknown;
struct Kid { int pid, fd; bool async; };
static vector<Kid> g_kids;
struct Stats { std::map<string, Site> as; std::map<string, long> reach; long q, st, fk; double so; };
static Stats g_base;
static void sendStats() {
    std::ostringstream o;
    for (auto &x : g_asserts) { Site z = g_base.as.count(x.first) ? g_base.as[x.first] : Site(); Site &y = x.second; o << "A\t" << x.first << "\t" << y.count - z.count << "\t" << y.trivial - z.trivial << "\t" << y.solved - z.solved << "\t" << y.cached - z.cached << "\t" << y.status << "\n"; }
    for (auto &x : g_reach) o << "R\t" << x.first << "\t" << x.second - (g_base.reach.count(x.first) ? g_base.reach[x.first] : 0) << "\n";
    for (auto &x : g_funcs) o << "F\t" << x << "\n";
    for (auto &x : g_model) o << "M\t" << x.first << "\t" << x.second << "\n";
    o << "Q\t" << g_queries - g_base.q << "\t" << g_steps - g_base.st << "\t" << g_forks - g_base.fk << "\t" << g_solver_s - g_base.so << "\n";
    if (g_unknown.size()) o << "U\t" << g_unknown << "\n";
    o << "E\n";
    string s = o.str(); size_t k = 0; while (k < s.size()) { ssize_t n = write(g_pipe, s.data() + k, s.size() - k); if (n <= 0) break; k += n; }
    close(g_pipe);
}
static void collect(Kid &k) {
    string s; char buf[65536]; ssize_t n;
    while ((n = read(k.fd, buf, sizeof buf)) > 0) s.append(buf, n);
    close(k.fd); int stt; waitpid(k.pid, &stt, 0);
    if (g_sh->done) _exit(0);
    std::istringstream in(s); string l; bool end = false;
    while (std::getline(in, l)) {
        vector<string> f; std::istringstream li(l); string w; while (std::getline(li, w, '\t')) f.push_back(w);
        if (f[0] == "E") end = true;
        else if (f[0] == "A") { Site &y = g_asserts[f[1]]; y.msg = f[1]; y.count += atol(f[2].c_str()); y.trivial += atol(f[3].c_str()); y.solved += atol(f[4].c_str()); y.cached += atol(f[5].c_str()); y.status = std::max(y.status, atoi(f[6].c_str())); }
        else if (f[0] == "R") g_reach[f[1]] += atol(f[2].c_str());
        else if (f[0] == "F") g_funcs.insert(f[1]);
        else if (f[0] == "M") g_model[strtoull(f[1].c_str(), 0, 10)] = strtoull(f[2].c_str(), 0, 10);
        else if (f[0] == "Q") { g_queries += atol(f[1].c_str()); g_steps += atol(f[2].c_str()); g_forks += atol(f[3].c_str()); g_solver_s += atof(f[4].c_str()); }
        else if (f[0] == "U" && g_unknown.empty()) g_unknown = f.size() > 1 ? f[1] : "?";
    }
    if (!end && g_unknown.empty()) g_unknown = "a path ended without an answer";
}
static void collectAll() { while (g_kids.size()) { Kid k = g_kids.back(); g_kids.pop_back(); collect(k); } }
static bool spawn() { // true in the child
    bool async = false;
    if (g_jobs > 1) { if (__sync_add_and_fetch(&g_sh->running, 1) < g_jobs) async = true; else __sync_sub_and_fetch(&g_sh->running, 1); }
    int fd[2]; if (pipe(fd)) unsupported("pipe");
    fcntl(fd[1], F_SETPIPE_SZ, 1 << 20);
    pid_t p = fork();
    if (p < 0) unsupported("fork");
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        close(fd[0]); g_pipe = fd[1]; g_async = async; for (auto &k : g_kids) close(k.fd); g_kids.clear();
        g_base = Stats{g_asserts, g_reach, g_queries, g_steps, g_forks, g_solver_s}; g_unknown.clear();
        return true;
    }
    close(fd[1]);
    Kid k{p, fd[0], async};
    if (async) g_kids.push_back(k); else collect(k);
    return false;
}
static bool checkMem = true;
static bool feasible(const vector<Node *> &pc, Node *c) {
    if (isC(c)) return c->k;
    vector<Node *> q(pc); q.push_back(c);
    return solveSat(q, 20000, nullptr) != 0; // unknown counts as feasible
}
static void fail(State &st, const string &msg, const vector<Node *> &q, std::map<u64, u64> &model) {
    (void)st; (void)q;
    g_violated = true; g_violation = msg; g_model = model;
    throw Violated();
}
static void splitConj(Node *n, vector<Node *> &v, std::set<u32> &seen) {
    if (!seen.insert(n->id).second) return;
    if (n->op == AND && n->w == 1) { splitConj(n->a, v, seen); splitConj(n->b, v, seen); return; }
    v.push_back(n);
}
static long g_qtimeout = 60000;
// a term rewritten with the facts of the path condition (each conjunct is true, x == constant means x is that constant)
static vector<Node *> s_pc; static std::unordered_map<u32, Node *> s_memo;
static Node *under(const vector<Node *> &pc, Node *root, long budget) {
    if (pc.empty() || isC(root)) return root;
    if (s_pc != pc || s_memo.size() > 4000000) {
        s_pc = pc; s_memo.clear();
        vector<Node *> cs; std::set<u32> seen;
        for (Node *p : pc) splitConj(p, cs, seen);
        for (Node *c : cs) {
            s_memo[c->id] = mkTrue();
            Node *nc = mkNot(c); s_memo[nc->id] = mkFalse();
            if (c->op == EQ && isC(c->b)) s_memo[c->a->id] = c->b;
            if (nc->op == OR && nc->w == 1) { // not (a or b)
                vector<Node *> st{nc->a, nc->b};
                while (!st.empty()) { Node *x = st.back(); st.pop_back(); if (x->op == OR) { st.push_back(x->a); st.push_back(x->b); } else { s_memo[x->id] = mkFalse(); Node *y = mkNot(x); s_memo[y->id] = mkTrue(); if (y->op == EQ && isC(y->b)) s_memo[y->a->id] = y->b; } }
            }
        }
    }
    vector<std::pair<Node *, int>> st; st.push_back({root, 0});
    while (!st.empty()) {
        auto t = st.back(); Node *n = t.first;
        if (isC(n) || n->op == VAR || s_memo.count(n->id)) { st.pop_back(); continue; }
        if (t.second == 0) {
            if (--budget < 0) return root;
            st.back().second = 1;
            if (n->op == ITE) { st.push_back({n->a, 0}); continue; }
            Node *k[3] = {n->a, n->b, n->c}; for (Node *x : k) if (x) st.push_back({x, 0});
            continue;
        }
        auto get = [&](Node *x) -> Node * { if (!x) return nullptr; auto it = s_memo.find(x->id); return it == s_memo.end() ? x : it->second; };
        if (n->op == ITE && t.second == 1) {
            Node *c = get(n->a);
            st.back().second = 2;
            if (isC(c)) st.push_back({c->k ? n->b : n->c, 0}); else { st.push_back({n->b, 0}); st.push_back({n->c, 0}); }
            continue;
        }
        st.pop_back();
        Node *a = get(n->a), *r;
        if (n->op == ITE && isC(a)) { s_memo[n->id] = get(a->k ? n->b : n->c); continue; }
        Node *b = get(n->b), *c = get(n->c);
        if (a == n->a && b == n->b && c == n->c) r = n;
        else switch (n->op) {
        case CONCAT: r = mkConcat(a, b); break;
        case EXTRACT: r = mkExtract(a, (unsigned)n->k, n->w); break;
        case SEXT: r = mkSext(a, n->w); break;
        case ITE: r = mkIte(a, b, c); break;
        case EQ: r = mkEq(a, b); break;
        case ULT: r = mkUlt(a, b); break;
        case SLT: r = mkSlt(a, b); break;
        default: r = mkBin(n->op, a, b);
        }
        s_memo[n->id] = r;
    }
    auto it = s_memo.find(root->id);
    return it == s_memo.end() ? root : it->second;
}
static void showDiff(Node *a, Node *b, int d) { // first places where two terms differ (debugging aid)
    static const char *on[] = {0};
    (void)on;
    fprintf(stderr, "%*s[%d] op %d/%d w %d/%d id %u/%u k %llx/%llx\n", d, "", d, a->op, b->op, a->w, b->w, a->id, b->id, (unsigned long long)a->k, (unsigned long long)b->k);
    if (a->op != b->op || d > 60 || isC(a) || isC(b)) return;
    if (a->op == XOR) {
        for (Node *q : {a, b}) { fprintf(stderr, "   sum:"); while (q->op == XOR) { fprintf(stderr, " %u(%d)", q->b->id, q->b->op); q = q->a; } fprintf(stderr, " %u(%d)\n", q->id, q->op); }
    }
    if (a->a && b->a && a->a != b->a) { fprintf(stderr, "%*s a:\n", d, ""); showDiff(a->a, b->a, d + 1); return; }
    if (a->b && b->b && a->b != b->b) { fprintf(stderr, "%*s b:\n", d, ""); showDiff(a->b, b->b, d + 1); return; }
    if (a->c && b->c && a->c != b->c) { fprintf(stderr, "%*s c:\n", d, ""); showDiff(a->c, b->c, d + 1); }
}
static void doAssert(State &st, Node *cond, const string &msg) {
    Site &s = g_asserts[msg]; s.msg = msg; s.count++;
    if (isK(cond, 1)) { s.trivial++; return; }
    vector<Node *> cs; std::set<u32> seen; splitConj(cond, cs, seen);
    for (Node *c0 : cs) {
        Node *c = under(st.pc, c0, 200000);
        if (isK(c, 1)) continue;
        if (getenv("SYMX_DIFF") && c->op == EQ) { showDiff(c->a, c->b, 0); exit(5); }
        Node *neg = mkNot(c);
        int r = shapeLookup(neg);
        if (r == 0) { s.cached++; continue; }
        std::map<u64, u64> model;
        if (r < 0) { // not known: first without the path condition (context-free lemma)
            r = isC(neg) ? (neg->k ? 1 : 0) : solveSat({neg}, st.pc.empty() ? g_qtimeout : 10000, &model);
            if (!isC(neg)) shapeStore(neg, r);
            if (r == 0) { s.solved++; continue; }
            if (st.pc.empty()) { if (r == 1) { s.status = 1; fail(st, msg, {neg}, model); } s.status = 2; continue; }
        } else if (st.pc.empty() && r == 2) { s.status = 2; continue; }
        vector<Node *> q(st.pc); q.push_back(neg);
        model.clear();
        r = solveSat(q, g_qtimeout, &model);
        if (r == 0) { s.solved++; continue; }
        if (r == 1) { s.status = 1; fail(st, msg, q, model); }
        s.status = 2;
    }
}
static bool refine(Node *c) { // an unconditional assumption about one input value becomes its range
    Node *x = nullptr; u64 k = 0;
    bool neg = false;
    if (c->op == XOR && isK(c->b, 1)) { neg = true; c = c->a; }
    auto varOf = [](Node *n, u64 &add) -> Node * {
        add = 0;
        if (n->op == ADD && isC(n->b)) { add = n->b->k; n = n->a; }
        while (n->op == CONCAT && isK(n->a, 0) && add == 0) n = n->b;
        return n->op == VAR ? n : nullptr;
    };
    if (c->op == ULT && isC(c->b) && (x = varOf(c->a, k))) { // x + k < C
        u64 C = c->b->k, m = MASK(x->w);
        if (k == 0) { if (neg) setVarRange(x, C, m); else if (C) setVarRange(x, 0, C - 1); return true; }
        u64 lo = (0 - k) & m, hi = (C - 1 - k) & m;
        if (!neg && lo <= hi && C) { setVarRange(x, lo, hi); return true; }
        return false;
    }
    if (c->op == ULT && isC(c->a) && (x = varOf(c->b, k)) && k == 0) { u64 C = c->a->k; if (neg) setVarRange(x, 0, C); else setVarRange(x, C + 1, MASK(x->w)); return true; }
    if (c->op == EQ && isC(c->b) && (x = varOf(c->a, k)) && k == 0) {
        u64 C = c->b->k;
        if (!neg) { setVarRange(x, C, C); return true; }
        if (C == x->lo) { setVarRange(x, C + 1, MASK(x->w)); return true; }
        if (C == x->hi) { setVarRange(x, 0, C - 1); return true; }
    }
    return false;
}
static int g_depth = 0; // nesting of symbolic branches
struct Dead {};
static void doAssume(State &st, Node *c) {
    if (isC(c)) { if (!c->k) throw Dead(); return; }
    vector<Node *> cs; std::set<u32> seen; splitConj(c, cs, seen);
    for (Node *x : cs) {
        if (isC(x)) { if (!x->k) throw Dead(); continue; }
        if (g_depth == 0 && refine(x)) continue;
        st.pc.push_back(x);
    }
}
// ------------------------------------------------------------------ values
typedef SmallVector<Node *, 2> Val;
static const DataLayout *DL;
static std::unique_ptr<Module> M;
static std::map<const GlobalValue *, u64> g_gaddr;
static std::map<u64, Function *> g_faddr;
static unsigned lanesOf(Type *t) {
    if (auto *v = dyn_cast<FixedVectorType>(t)) return v->getNumElements();
    if (auto *s = dyn_cast<StructType>(t)) { unsigned n = 0; for (Type *e : s->elements()) n += lanesOf(e); return n; }
    if (auto *a = dyn_cast<ArrayType>(t)) return a->getNumElements() * lanesOf(a->getElementType());
    return 1;
}
static unsigned widthOf(Type *t) {
    t = t->getScalarType();
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) { unsigned w = t->getIntegerBitWidth(); if (w > 64) unsupported("integer wider than 64 bits"); return w; }
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    string s; raw_string_ostream os(s); t->print(os); unsupported("type " + os.str());
}
static u64 globalAddr(const GlobalValue *g) { auto it = g_gaddr.find(g); if (it == g_gaddr.end()) unsupported("no address for " + g->getName().str()); return it->second; }
static Val constVal(const Constant *c);
static int g_undef = 0;
static void constInto(const Constant *c, Val &out) {
    Type *t = c->getType();
    if (isa<PoisonValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) {
        if (auto *s = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < s->getNumElements(); i++) constInto(c->getAggregateElement(i), out); return; }
        if (auto *a = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < a->getNumElements(); i++) constInto(c->getAggregateElement(i), out); return; }
        unsigned n = lanesOf(t), w = widthOf(t); for (unsigned i = 0; i < n; i++) out.push_back(mkConst(0, w)); return;
    }
    if (isa<UndefValue>(c)) {
        if (t->isAggregateType()) { for (unsigned i = 0; c->getAggregateElement(i); i++) constInto(c->getAggregateElement(i), out); return; }
        unsigned n = lanesOf(t), w = widthOf(t); for (unsigned i = 0; i < n; i++) out.push_back(mkVar(w, "undef:value" + std::to_string(g_undef++))); return;
    }
    if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) unsupported("wide constant"); out.push_back(mkConst(ci->getZExtValue(), ci->getBitWidth())); return; }
    if (auto *cf = dyn_cast<ConstantFP>(c)) { out.push_back(mkConst(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t))); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) constInto(cd->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (unsigned i = 0; i < c->getNumOperands(); i++) constInto(cast<Constant>(c->getOperand(i)), out); return; }
    if (auto *g = dyn_cast<GlobalValue>(c)) { out.push_back(mkConst(globalAddr(g), 64)); return; }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
        switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0); auto *gep = cast<GEPOperator>(ce);
            if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constant gep");
            Val b = constVal(cast<Constant>(gep->getPointerOperand()));
            out.push_back(mkBin(ADD, b[0], mkConst(off.getZExtValue(), 64))); return;
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
            Val b = constVal(ce->getOperand(0)); out.push_back(mkZext(b[0], widthOf(t))); return; }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::Xor: {
            Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1));
            Op op = ce->getOpcode() == Instruction::Add ? ADD : ce->getOpcode() == Instruction::Sub ? SUB : ce->getOpcode() == Instruction::Mul ? MUL : XOR;
            out.push_back(mkBin(op, a[0], b[0])); return; }
        default: break;
        }
    }
    string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + os.str());
}
static Val constVal(const Constant *c) { Val v; constInto(c, v); return v; }

// ------------------------------------------------------------------ functions
struct Opnd { int reg; const Constant *c; Val cv; bool cached; };
struct Ins { Instruction *I; unsigned op; int dst; SmallVector<Opnd, 3> o; unsigned w, lanes; };
struct Blk { BasicBlock *bb; vector<Ins> phis, body; int ipdom = -1; bool live = false; bool loopExit = false; };
struct Fn { Function *F; vector<Blk> b; DenseMap<BasicBlock *, int> bi; DenseMap<Value *, int> ri; int nregs = 0; };
static std::map<Function *, std::unique_ptr<Fn>> g_fn;
static void computeIpdom(Fn &f) {
    int n = f.b.size();
    // live: can reach a return
    bool ch = true;
    for (auto &b : f.b) b.live = isa<ReturnInst>(b.bb->getTerminator());
    while (ch) { ch = false; for (auto &b : f.b) if (!b.live) for (BasicBlock *s : successors(b.bb)) if (f.b[f.bi[s]].live) { b.live = true; ch = true; break; } }
    // postdominator sets as bitsets over live blocks (+ virtual exit n)
    typedef vector<bool> BS;
    vector<BS> pd(n + 1, BS(n + 1, true));
    pd[n] = BS(n + 1, false); pd[n][n] = true;
    ch = true;
    while (ch) {
        ch = false;
        for (int i = n - 1; i >= 0; i--) if (f.b[i].live) {
            BS x(n + 1, true); bool any = false;
            if (isa<ReturnInst>(f.b[i].bb->getTerminator())) { x = pd[n]; any = true; }
            for (BasicBlock *s : successors(f.b[i].bb)) { int j = f.bi[s]; if (f.b[j].live) { any = true; for (int k = 0; k <= n; k++) x[k] = x[k] && pd[j][k]; } }
            if (!any) x = BS(n + 1, false);
            x[i] = true;
            if (x != pd[i]) { pd[i] = x; ch = true; }
        }
    }
    for (int i = 0; i < n; i++) if (f.b[i].live) {
        // immediate: the strict postdominator with the largest own set
        int best = -1; size_t bs = 0;
        for (int j = 0; j < n; j++) if (j != i && pd[i][j] && f.b[j].live) { size_t c = std::count(pd[j].begin(), pd[j].end(), true); if (c > bs) { bs = c; best = j; } }
        f.b[i].ipdom = best;
    }
    // blocks whose branch may leave a loop: in a cycle, with a successor that cannot come back
    vector<vector<bool>> reach(n, vector<bool>(n, false));
    for (int i = 0; i < n; i++) { vector<int> st{i}; while (!st.empty()) { int x = st.back(); st.pop_back(); for (BasicBlock *s : successors(f.b[x].bb)) { int j = f.bi[s]; if (!reach[i][j]) { reach[i][j] = true; st.push_back(j); } } } }
    for (int i = 0; i < n; i++) if (reach[i][i]) { f.b[i].loopExit = true; }
}
static Fn &getFn(Function *F) {
    auto &p = g_fn[F];
    if (p) return *p;
    p.reset(new Fn); Fn &f = *p; f.F = F;
    g_funcs.insert(F->getName().str());
    for (auto &a : F->args()) f.ri[&a] = f.nregs++;
    for (auto &bb : *F) { f.bi[&bb] = f.b.size(); Blk b; b.bb = &bb; f.b.push_back(b); for (auto &I : bb) if (!I.getType()->isVoidTy()) f.ri[&I] = f.nregs++; }
    for (auto &bb : *F) {
        Blk &b = f.b[f.bi[&bb]];
        for (auto &I : bb) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            Ins x; x.I = &I; x.op = I.getOpcode(); x.dst = I.getType()->isVoidTy() ? -1 : f.ri[&I];
            x.w = 0; x.lanes = 1;
            Type *t = I.getType();
            if (!t->isVoidTy()) { x.lanes = lanesOf(t); if (!t->isAggregateType()) { try { x.w = widthOf(t); } catch (Fail &) { x.w = 0; } } }
            for (Value *v : I.operands()) {
                Opnd o; o.reg = -1; o.c = nullptr; o.cached = false;
                if (auto it = f.ri.find(v); it != f.ri.end()) o.reg = it->second;
                else if (auto *c = dyn_cast<Constant>(v)) o.c = c;
                x.o.push_back(o);
            }
            (isa<PHINode>(I) ? b.phis : b.body).push_back(x);
        }
    }
    computeIpdom(f);
    return f;
}
struct Frame { Fn *f; vector<Val> r; vector<u32> allocas; };
static bool hasUndef(const Constant *c) { if (isa<UndefValue>(c) && !isa<PoisonValue>(c)) return true; for (auto &o : c->operands()) if (auto *k = dyn_cast<Constant>(o)) if (!isa<GlobalValue>(k) && hasUndef(k)) return true; return false; }
static const Val &opv(Frame &fr, Opnd &o) {
    if (o.reg >= 0) return fr.r[o.reg];
    if (!o.cached) { o.cv = constVal(o.c); o.cached = !hasUndef(o.c); }
    return o.cv;
}
// ------------------------------------------------------------------ memory access
static Node *typedByteConcat(State &st, u32 o, u64 off, unsigned bytes) {
    Node *n = getByte(st, o, off);
    for (unsigned i = 1; i < bytes; i++) n = mkConcat(getByte(st, o, off + i), n);
    return n;
}
static void memViolation(State &st, Node *bad, const string &what) {
    // bad: condition under which the access is outside its object
    std::map<u64, u64> model;
    vector<Node *> q(st.pc); q.push_back(bad);
    string msg = "memory: " + what;
    Site &s = g_asserts[msg]; s.msg = msg; s.count++;
    int r = isK(bad, 1) && st.pc.empty() ? 1 : solveSat(q, g_qtimeout, &model);
    if (r == 0) { s.solved++; return; }
    if (r == 2) { s.status = 2; return; }
    s.status = 1;
    fail(st, msg, q, model);
}
static string whereAmI;
struct Access { u32 obj; Node *off; bool c; u64 k; };
static Access resolve(State &st, Node *addr, u64 bytes, const char *kind, bool &dead) {
    Access a{0, nullptr, true, 0}; dead = false;
    if (isC(addr)) {
        int o = findObj(addr->k);
        if (o < 0 || addr->k < g_objs[o].base || addr->k + bytes > g_objs[o].base + g_objs[o].size) {
            memViolation(st, mkTrue(), string(kind) + " outside an object" + (o >= 0 ? " (" + g_objs[o].name + ")" : "") + " in " + whereAmI);
            dead = true; return a;
        }
        a.obj = o; a.k = addr->k - g_objs[o].base; return a;
    }
    // symbolic: base object from the constant part of the address
    u64 base = 0; bool have = false;
    std::function<void(Node *)> look = [&](Node *n) { if (have) return; if (isC(n)) { if (n->k >= 0x100000 && findObj(n->k) >= 0) { base = n->k; have = true; } return; } if (n->op == ADD || n->op == OR || n->op == SUB) { look(n->b); look(n->a); } };
    look(addr);
    if (!have) { int o = findObj(addr->lo); if (o >= 0 && addr->hi < g_objs[o].base + g_objs[o].size + 4096) { base = g_objs[o].base; have = true; } }
    if (!have && addr->op == ITE) unsupported("ite address");
    if (!have) unsupported(string("symbolic address without a base object in ") + whereAmI);
    int o = findObj(base);
    a.obj = o; a.c = false;
    Node *off = mkBin(SUB, addr, mkConst(g_objs[o].base, 64));
    a.off = off;
    u64 sz = g_objs[o].size;
    if (sz < bytes) { memViolation(st, mkTrue(), string(kind) + " outside " + g_objs[o].name); dead = true; return a; }
    if (off->hi > sz - bytes) {
        Node *bad = mkUlt(mkConst(sz - bytes, 64), off);
        memViolation(st, bad, string(kind) + " outside " + g_objs[o].name + " in " + whereAmI);
        // continue with the access inside (proved)
    }
    return a;
}
static unsigned tz(Node *n) { u64 k = ~n->kz; return k ? __builtin_ctzll(k) : 63; }
static void candidates(Node *off, u64 sz, u64 bytes, vector<u64> &out) {
    if (off->op == ITE) { // explicit alternatives
        vector<Node *> stk{off}; std::set<u64> s; bool ok = true; std::set<u32> seen;
        while (!stk.empty() && ok) { Node *n = stk.back(); stk.pop_back(); if (!seen.insert(n->id).second) continue; if (isC(n)) s.insert(n->k); else if (n->op == ITE) { stk.push_back(n->b); stk.push_back(n->c); } else ok = false; if (s.size() > 4096) ok = false; }
        if (ok) { for (u64 x : s) if (x + bytes <= sz) out.push_back(x); return; }
    }
    u64 hi = std::min(off->hi, sz - bytes), lo = off->lo; u64 step = 1ull << std::min(tz(off), 20u);
    // scaled index: (k * x) + c
    u64 c = 0; Node *n = off; if (n->op == ADD && isC(n->b)) { c = n->b->k; n = n->a; }
    if (n->op == MUL && isC(n->b)) { u64 s = n->b->k; u64 first = c; for (u64 v = n->a->lo; v <= n->a->hi; v++) { u64 x = first + v * s; if (x + bytes <= sz) out.push_back(x); else if (v > (sz / (s ? s : 1))) break; } if (!out.empty()) return; }
    u64 st0 = (lo + step - 1) / step * step;
    if (c && step > 1) {}
    for (u64 x = st0; x <= hi; x += step) out.push_back(x);
    if (out.size() > 70000) unsupported("too many candidate addresses");
}
static Node *memLoadSym(State &st, const Access &a, unsigned bytes) {
    if (a.off->op == ITE) { // explicit alternatives: one value per leaf, same conditions
        vector<std::pair<Node *, u64>> v; Node *t = a.off; u64 sz = g_objs[a.obj].size; bool ok = true;
        while (t->op == ITE && isC(t->b) && ok) { ok = t->b->k + bytes <= sz; v.push_back({t->a, t->b->k}); t = t->c; }
        if (ok && isC(t) && t->k + bytes <= sz) { Node *r = typedByteConcat(st, a.obj, t->k, bytes); for (size_t i = v.size(); i-- > 0;) r = mkIte(v[i].first, typedByteConcat(st, a.obj, v[i].second, bytes), r); return r; }
    }
    vector<u64> cs; candidates(a.off, g_objs[a.obj].size, bytes, cs);
    if (cs.empty()) unsupported("no candidate address");
    Node *r = nullptr;
    for (size_t i = cs.size(); i-- > 0;) {
        Node *v = typedByteConcat(st, a.obj, cs[i], bytes);
        if (!r) r = v; else r = mkIte(mkEq(a.off, mkConst(cs[i], 64)), v, r);
    }
    return r;
}
static unsigned storeSize(Type *t) { return (unsigned)DL->getTypeStoreSize(t).getFixedValue(); }
static void loadLeaf(State &st, Node *addr, Type *t, Val &out) {
    if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) loadLeaf(st, mkBin(ADD, addr, mkConst(sl->getElementOffset(i), 64)), s->getElementType(i), out); return; }
    if (auto *ar = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) loadLeaf(st, mkBin(ADD, addr, mkConst(i * es, 64)), ar->getElementType(), out); return; }
    bool dead; 
    if (auto *v = dyn_cast<FixedVectorType>(t)) {
        unsigned n = v->getNumElements(), w = widthOf(t); if (w % 8) unsupported("bit vector load");
        Access a = resolve(st, addr, n * w / 8, "read", dead); if (dead) throw Dead();
        for (unsigned i = 0; i < n; i++) {
            if (a.c) out.push_back(typedByteConcat(st, a.obj, a.k + i * w / 8, w / 8));
            else { Access b = a; b.off = mkBin(ADD, a.off, mkConst(i * w / 8, 64)); out.push_back(memLoadSym(st, b, w / 8)); }
        }
        return;
    }
    unsigned w = widthOf(t), bytes = (w + 7) / 8;
    Access a = resolve(st, addr, bytes, "read", dead); if (dead) throw Dead();
    Node *r = a.c ? typedByteConcat(st, a.obj, a.k, bytes) : memLoadSym(st, a, bytes);
    out.push_back(mkExtract(r, 0, w));
}
static void storeBytes(State &st, const Access &a, Node *v, unsigned bytes) {
    if (a.c) { for (unsigned i = 0; i < bytes; i++) setByte(st, a.obj, a.k + i, mkExtract(v, 8 * i, 8)); return; }
    vector<u64> cs; candidates(a.off, g_objs[a.obj].size, bytes, cs);
    for (u64 c : cs) {
        Node *e = mkEq(a.off, mkConst(c, 64));
        for (unsigned i = 0; i < bytes; i++) setByte(st, a.obj, c + i, mkIte(e, mkExtract(v, 8 * i, 8), getByte(st, a.obj, c + i)));
    }
}
static void storeLeaf(State &st, Node *addr, Type *t, const Val &v, unsigned &k) {
    if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) storeLeaf(st, mkBin(ADD, addr, mkConst(sl->getElementOffset(i), 64)), s->getElementType(i), v, k); return; }
    if (auto *ar = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(ar->getElementType()); for (unsigned i = 0; i < ar->getNumElements(); i++) storeLeaf(st, mkBin(ADD, addr, mkConst(i * es, 64)), ar->getElementType(), v, k); return; }
    unsigned n = lanesOf(t), w = widthOf(t), bytes = (w + 7) / 8;
    if (n > 1 && w % 8) unsupported("bit vector store");
    bool dead; Access a = resolve(st, addr, (u64)n * bytes, "write", dead); if (dead) throw Dead();
    for (unsigned i = 0; i < n; i++) {
        Access b = a; if (a.c) b.k += i * bytes; else if (i) b.off = mkBin(ADD, a.off, mkConst(i * bytes, 64));
        storeBytes(st, b, mkZext(v[k++], bytes * 8), bytes);
    }
}
static void memcpySym(State &st, Node *d, Node *s, Node *len) {
    bool dead;
    if (isC(len)) {
        if (!len->k) return;
        Access a = resolve(st, s, len->k, "read", dead); if (dead) throw Dead();
        Access b = resolve(st, d, len->k, "write", dead); if (dead) throw Dead();
        vector<Node *> buf(len->k);
        for (u64 i = 0; i < len->k; i++) {
            if (a.c) buf[i] = getByte(st, a.obj, a.k + i);
            else { Access x = a; x.off = mkBin(ADD, a.off, mkConst(i, 64)); buf[i] = memLoadSym(st, x, 1); }
        }
        for (u64 i = 0; i < len->k; i++) {
            Access x = b; if (b.c) x.k += i; else x.off = mkBin(ADD, b.off, mkConst(i, 64));
            storeBytes(st, x, buf[i], 1);
        }
        return;
    }
    // symbolic length: bytes i < len are copied
    Access a = resolve(st, s, 0, "read", dead); if (dead) throw Dead();
    Access b = resolve(st, d, 0, "write", dead); if (dead) throw Dead();
    auto chk = [&](Access &x, const char *k) {
        u64 sz = g_objs[x.obj].size; Node *off = x.c ? mkConst(x.k, 64) : x.off;
        Node *bad = mkBin(OR, mkUlt(mkConst(sz, 64), len), mkUlt(mkBin(SUB, mkConst(sz, 64), len), off));
        if (!isK(bad, 0)) memViolation(st, bad, string(k) + " (block copy) outside " + g_objs[x.obj].name + " in " + whereAmI);
    };
    chk(a, "read"); chk(b, "write");
    u64 mx = std::min(len->hi, std::min(g_objs[a.obj].size, g_objs[b.obj].size));
    vector<Node *> buf(mx);
    for (u64 i = 0; i < mx; i++) {
        if (a.c) buf[i] = a.k + i < g_objs[a.obj].size ? getByte(st, a.obj, a.k + i) : nullptr;
        else { Access x = a; x.off = mkBin(ADD, a.off, mkConst(i, 64)); buf[i] = memLoadSym(st, x, 1); }
    }
    if (b.c) { for (u64 i = 0; i < mx && b.k + i < g_objs[b.obj].size; i++) if (buf[i]) setByte(st, b.obj, b.k + i, mkIte(mkUlt(mkConst(i, 64), len), buf[i], getByte(st, b.obj, b.k + i))); }
    else {
        // destination offset symbolic too: target byte j takes source byte j - off when off <= j < off + len
        u64 sz = g_objs[b.obj].size;
        vector<u64> offs; candidates(b.off, sz + 1, 1, offs);
        for (u64 o : offs) { Node *e = mkEq(b.off, mkConst(o, 64)); for (u64 i = 0; i < mx && o + i < sz; i++) if (buf[i]) setByte(st, b.obj, o + i, mkIte(mkBin(AND, e, mkUlt(mkConst(i, 64), len)), buf[i], getByte(st, b.obj, o + i))); }
    }
}
static void memsetSym(State &st, Node *d, Node *v, Node *len) {
    bool dead;
    if (!isC(len)) {
        Access b = resolve(st, d, 0, "write", dead); if (dead) throw Dead();
        if (!b.c) unsupported("memset with symbolic address and length");
        u64 sz = g_objs[b.obj].size; Node *bad = mkUlt(mkConst(sz - b.k, 64), len);
        if (!isK(bad, 0)) memViolation(st, bad, "write (block set) outside " + g_objs[b.obj].name);
        for (u64 i = 0; i < std::min(len->hi, sz - b.k); i++) setByte(st, b.obj, b.k + i, mkIte(mkUlt(mkConst(i, 64), len), v, getByte(st, b.obj, b.k + i)));
        return;
    }
    if (!len->k) return;
    Access b = resolve(st, d, len->k, "write", dead); if (dead) throw Dead();
    for (u64 i = 0; i < len->k; i++) { Access x = b; if (b.c) x.k += i; else x.off = mkBin(ADD, b.off, mkConst(i, 64)); storeBytes(st, x, v, 1); }
}
static string cstr(State &st, Node *p) { string s; if (!isC(p)) return "?"; int o = findObj(p->k); if (o < 0) return "?"; u64 k = p->k - g_objs[o].base; while (k < g_objs[o].size) { Node *b = getByte(st, o, k++); if (!isC(b) || !b->k) break; s += (char)b->k; } return s; }
// symbolic inputs: one variable per scalar of the type
static void havoc(State &st, u64 addr, Type *t, const string &name) {
    if (auto *s = dyn_cast<StructType>(t)) { const StructLayout *sl = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) havoc(st, addr + sl->getElementOffset(i), s->getElementType(i), name + "." + std::to_string(i)); return; }
    if (auto *a = dyn_cast<ArrayType>(t)) { u64 es = DL->getTypeAllocSize(a->getElementType()); for (u64 i = 0; i < a->getNumElements(); i++) havoc(st, addr + i * es, a->getElementType(), name + "[" + std::to_string(i) + "]"); return; }
    unsigned bytes = storeSize(t), w = widthOf(t);
    Node *v = mkZext(mkVar(w, name), bytes * 8);
    int o = findObj(addr);
    for (unsigned i = 0; i < bytes; i++) setByte(st, o, addr - g_objs[o].base + i, mkExtract(v, 8 * i, 8));
}
// ------------------------------------------------------------------ execution
struct Outcome { enum K { REACHED, RETURNED, DEAD } k; Val ret; };
static Outcome run(Frame &fr, State &st, int bi, int prev, int stop, bool phisDone);
static bool callFn(Function *F, vector<Val> &args, State &st, Val &ret);
static Node *mulhi(Node *a, Node *b, bool sg) { unsigned w = a->w; Node *x = sg ? mkSext(a, 2 * w) : mkZext(a, 2 * w), *y = sg ? mkSext(b, 2 * w) : mkZext(b, 2 * w); return mkExtract(mkBin(MUL, x, y), w, w); }
static Val gather(Val &v, unsigned fw, unsigned tw) { // reinterpret lanes (bitcast)
    Val r; if (fw == tw) return v;
    if (fw < tw) { unsigned k = tw / fw; for (size_t i = 0; i < v.size(); i += k) { Node *n = v[i]; for (unsigned j = 1; j < k; j++) n = mkConcat(v[i + j], n); r.push_back(n); } }
    else { unsigned k = fw / tw; for (Node *n : v) for (unsigned j = 0; j < k; j++) r.push_back(mkExtract(n, j * tw, tw)); }
    return r;
}
static Node *icmp(CmpInst::Predicate p, Node *a, Node *b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
    case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_UGT: return mkUlt(b, a);
    case CmpInst::ICMP_ULE: return mkNot(mkUlt(b, a)); case CmpInst::ICMP_UGE: return mkNot(mkUlt(a, b));
    case CmpInst::ICMP_SLT: return mkSlt(a, b); case CmpInst::ICMP_SGT: return mkSlt(b, a);
    case CmpInst::ICMP_SLE: return mkNot(mkSlt(b, a)); case CmpInst::ICMP_SGE: return mkNot(mkSlt(a, b));
    default: unsupported("icmp");
    }
}
static Node *satAddU(Node *a, Node *b) { Node *s = mkBin(ADD, a, b); return mkIte(mkUlt(s, a), mkConst(MASK(a->w), a->w), s); }
static Node *satSubU(Node *a, Node *b) { return mkIte(mkUlt(a, b), mkConst(0, a->w), mkBin(SUB, a, b)); }
static bool intrinsic(Ins &x, Frame &fr, State &st, const string &n, vector<Val> &a, Val &ret) {
    auto has = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
    auto map1 = [&](std::function<Node *(Node *)> f) { for (Node *v : a[0]) ret.push_back(f(v)); };
    auto map2 = [&](std::function<Node *(Node *, Node *)> f) { for (size_t i = 0; i < a[0].size(); i++) ret.push_back(f(a[0][i], a[1][i])); };
    (void)fr; (void)x;
    if (has("llvm.lifetime") || has("llvm.dbg") || has("llvm.assume") || has("llvm.experimental.noalias") || has("llvm.donothing")) return true;
    if (has("llvm.memcpy") || has("llvm.memmove")) { memcpySym(st, a[0][0], a[1][0], a[2][0]); return true; }
    if (has("llvm.memset")) { memsetSym(st, a[0][0], a[1][0], a[2][0]); return true; }
    if (has("llvm.umin")) { map2([](Node *p, Node *q) { return mkIte(mkUlt(p, q), p, q); }); return true; }
    if (has("llvm.umax")) { map2([](Node *p, Node *q) { return mkIte(mkUlt(p, q), q, p); }); return true; }
    if (has("llvm.smin")) { map2([](Node *p, Node *q) { return mkIte(mkSlt(p, q), p, q); }); return true; }
    if (has("llvm.smax")) { map2([](Node *p, Node *q) { return mkIte(mkSlt(p, q), q, p); }); return true; }
    if (has("llvm.abs")) { map1([](Node *p) { return mkIte(mkExtract(p, p->w - 1, 1), mkBin(SUB, mkConst(0, p->w), p), p); }); return true; }
    if (has("llvm.uadd.sat")) { map2(satAddU); return true; }
    if (has("llvm.usub.sat")) { map2(satSubU); return true; }
    if (has("llvm.bswap")) { map1([](Node *p) { Node *r = mkExtract(p, 0, 8); for (unsigned i = 8; i < p->w; i += 8) r = mkConcat(r, mkExtract(p, i, 8)); return r; }); return true; }
    if (has("llvm.fshl") || has("llvm.fshr")) {
        for (size_t i = 0; i < a[0].size(); i++) {
            Node *h = a[0][i], *l = a[1][i], *s = a[2][i]; unsigned w = h->w;
            if (!isC(s)) { 
                Node *r = nullptr; for (unsigned k = w; k-- > 0;) { unsigned q = has("llvm.fshl") ? k : (w - k) % w; Node *v = q == 0 ? (has("llvm.fshl") ? h : l) : mkConcat(mkExtract(h, 0, w - q), mkExtract(l, w - q, q)); r = r ? mkIte(mkEq(mkBin(AND, s, mkConst(w - 1, w)), mkConst(k, w)), v, r) : v; }
                ret.push_back(r); continue; }
            unsigned k = s->k % w;
            if (has("llvm.fshl")) ret.push_back(k == 0 ? h : mkConcat(mkExtract(h, 0, w - k), mkExtract(l, w - k, k)));
            else ret.push_back(k == 0 ? l : mkConcat(mkExtract(h, 0, k), mkExtract(l, k, w - k)));
        }
        return true;
    }
    if (has("llvm.ctpop")) { map1([](Node *p) { Node *r = mkConst(0, p->w); for (unsigned i = 0; i < p->w; i++) r = mkBin(ADD, r, mkZext(mkExtract(p, i, 1), p->w)); return r; }); return true; }
    if (has("llvm.ctlz")) { map1([](Node *p) { Node *r = mkConst(p->w, p->w); for (unsigned i = 0; i < p->w; i++) r = mkIte(mkExtract(p, i, 1), mkConst(p->w - 1 - i, p->w), r); return r; }); return true; }
    if (has("llvm.cttz")) { map1([](Node *p) { Node *r = mkConst(p->w, p->w); for (unsigned i = p->w; i-- > 0;) r = mkIte(mkExtract(p, i, 1), mkConst(i, p->w), r); return r; }); return true; }
    if (has("llvm.uadd.with.overflow")) { Node *s = mkBin(ADD, a[0][0], a[1][0]); ret.push_back(s); ret.push_back(mkUlt(s, a[0][0])); return true; }
    if (has("llvm.umul.with.overflow") && a[0][0]->w <= 32) { Node *p = mkBin(MUL, mkZext(a[0][0], 64), mkZext(a[1][0], 64)); unsigned w = a[0][0]->w; ret.push_back(mkExtract(p, 0, w)); ret.push_back(mkNot(mkEq(mkExtract(p, w, 64 - w), mkConst(0, 64 - w)))); return true; }
    if (has("llvm.vector.reduce.")) { Op op = has("llvm.vector.reduce.add") ? ADD : has("llvm.vector.reduce.and") ? AND : has("llvm.vector.reduce.or") ? OR : has("llvm.vector.reduce.xor") ? XOR : CONST; if (op == CONST) unsupported(n); Node *r = a[0][0]; for (size_t i = 1; i < a[0].size(); i++) r = mkBin(op, r, a[0][i]); ret.push_back(r); return true; }
    if (has("llvm.stacksave")) { ret.push_back(mkConst(0, 64)); return true; }
    if (has("llvm.stackrestore")) return true;
    if (has("llvm.objectsize")) { ret.push_back(mkConst(~0ull, x.w)); return true; }
    if (has("llvm.is.constant")) { ret.push_back(mkFalse()); return true; }
    if (has("llvm.expect")) { ret = a[0]; return true; }
    if (has("llvm.trap")) throw Dead();
    // AVX2 / SSE
    auto is = [&](const char *p) { return n == p; };
    if (is("llvm.x86.avx2.pmulhu.w") || is("llvm.x86.sse2.pmulhu.w")) { map2([](Node *p, Node *q) { return mulhi(p, q, false); }); return true; }
    if (is("llvm.x86.avx2.pmulh.w") || is("llvm.x86.sse2.pmulh.w")) { map2([](Node *p, Node *q) { return mulhi(p, q, true); }); return true; }
    if (is("llvm.x86.avx2.pshuf.b") || is("llvm.x86.ssse3.pshuf.b.128")) {
        for (size_t i = 0; i < a[0].size(); i++) {
            Node *s = a[1][i]; size_t base = i & ~15ul;
            if (isC(s)) { ret.push_back((s->k & 0x80) ? mkConst(0, 8) : a[0][base + (s->k & 15)]); continue; }
            Node *r = nullptr; Node *ix = mkExtract(s, 0, 4); for (unsigned k = 16; k-- > 0;) r = r ? mkIte(mkEq(ix, mkConst(k, 4)), a[0][base + k], r) : a[0][base + k];
            ret.push_back(mkIte(mkExtract(s, 7, 1), mkConst(0, 8), r));
        }
        return true;
    }
    if (is("llvm.x86.avx2.packuswb") || is("llvm.x86.sse2.packuswb.128") || is("llvm.x86.avx2.packsswb") || is("llvm.x86.sse2.packsswb.128")) {
        bool u = n.find("packus") != string::npos; size_t L = a[0].size();
        for (size_t l = 0; l < L; l += 8) for (int s = 0; s < 2; s++) for (int k = 0; k < 8; k++) {
            Node *v = a[s][l + k];
            Node *lo = u ? mkConst(0, 16) : mkConst(0xff80, 16), *hi = u ? mkConst(255, 16) : mkConst(127, 16);
            Node *r = mkIte(mkSlt(v, lo), lo, mkIte(mkSlt(hi, v), hi, v)); ret.push_back(mkExtract(r, 0, 8)); }
        return true;
    }
    if (is("llvm.x86.avx2.pmadd.ub.sw")) { for (size_t i = 0; i < a[0].size(); i += 2) { Node *p = mkBin(MUL, mkZext(a[0][i], 32), mkSext(a[1][i], 32)), *q = mkBin(MUL, mkZext(a[0][i + 1], 32), mkSext(a[1][i + 1], 32)), *s = mkBin(ADD, p, q); Node *mn = mkConst((u64)-32768, 32), *mx = mkConst(32767, 32); s = mkIte(mkSlt(s, mn), mn, mkIte(mkSlt(mx, s), mx, s)); ret.push_back(mkExtract(s, 0, 16)); } return true; }
    if (is("llvm.x86.avx2.pmadd.wd")) { for (size_t i = 0; i < a[0].size(); i += 2) ret.push_back(mkBin(ADD, mkBin(MUL, mkSext(a[0][i], 32), mkSext(a[1][i], 32)), mkBin(MUL, mkSext(a[0][i + 1], 32), mkSext(a[1][i + 1], 32)))); return true; }
    if (is("llvm.x86.avx2.pmovmskb") || is("llvm.x86.sse2.pmovmskb.128")) { Node *r = nullptr; for (Node *v : a[0]) { Node *b = mkExtract(v, 7, 1); r = r ? mkConcat(b, r) : b; } ret.push_back(mkZext(r, 32)); return true; }
    if (is("llvm.x86.avx2.permd")) { for (size_t i = 0; i < a[0].size(); i++) { Node *s = a[1][i]; if (!isC(s)) unsupported(n); ret.push_back(a[0][s->k & 7]); } return true; }
    if (is("llvm.x86.avx.ptestz.256") || is("llvm.x86.sse41.ptestz")) { Node *r = mkTrue(); for (size_t i = 0; i < a[0].size(); i++) r = mkBin(AND, r, mkEq(mkBin(AND, a[0][i], a[1][i]), mkConst(0, a[0][i]->w))); ret.push_back(mkZext(r, 32)); return true; }
    if (has("llvm.x86.avx2.psrli.") || has("llvm.x86.avx2.pslli.") || has("llvm.x86.avx2.psrai.") || has("llvm.x86.sse2.psrli.") || has("llvm.x86.sse2.pslli.") || has("llvm.x86.sse2.psrai.")) {
        Op op = n.find("psrli") != string::npos ? LSHR : n.find("pslli") != string::npos ? SHL : ASHR;
        Node *s = a[1][0]; if (!isC(s)) unsupported(n);
        for (Node *v : a[0]) ret.push_back(mkBin(op, v, mkConst(std::min<u64>(s->k, op == ASHR ? v->w - 1 : v->w), v->w)));
        return true;
    }
    if (is("llvm.x86.avx2.psign.b")) { map2([](Node *p, Node *q) { return mkIte(mkEq(q, mkConst(0, 8)), mkConst(0, 8), mkIte(mkExtract(q, 7, 1), mkBin(SUB, mkConst(0, 8), p), p)); }); return true; }
    if (is("llvm.x86.avx2.pblendvb")) { for (size_t i = 0; i < a[0].size(); i++) ret.push_back(mkIte(mkExtract(a[2][i], 7, 1), a[1][i], a[0][i])); return true; }
    return false;
}
static void external(const string &n, vector<Val> &a, State &st, Val &ret, Ins &x, bool &handled) {
    handled = true;
    if (n == "vc_assert_") { doAssert(st, mkNot(mkEq(a[0][0], mkConst(0, a[0][0]->w))), cstr(st, a[1][0])); return; }
    if (n == "vc_assume_") { doAssume(st, mkNot(mkEq(a[0][0], mkConst(0, a[0][0]->w)))); return; }
    if (n == "vc_reach_") { string m = cstr(st, a[0][0]); if (!g_reach.count(m)) g_reach[m] = 0; vector<Node *> q(st.pc); std::map<u64, u64> model; if (solveSat(q, g_qtimeout, &model) == 1) { g_reach[m]++; g_model = model; } return; }
    if (n == "vc_inputs_") { GlobalVariable *g = M->getGlobalVariable("vc_in", true); if (!g) unsupported("no vc_in"); havoc(st, globalAddr(g), g->getValueType(), "in"); g_inAddr = globalAddr(g); g_inSize = DL->getTypeAllocSize(g->getValueType()); int o = findObj(g_inAddr); for (u64 i = 0; i < g_inSize; i++) g_inBytes.push_back(getByte(st, o, i)); return; }
    if (n == "vc_cut_") { // vc_cut_(ptr, n, width_bytes): the values become fresh variables (over-approximation)
        return; }
    if (n == "memcpy" || n == "memmove") { memcpySym(st, a[0][0], a[1][0], a[2][0]); ret = a[0]; return; }
    if (n == "memset") { memsetSym(st, a[0][0], mkExtract(a[1][0], 0, 8), a[2][0]); ret = a[0]; return; }
    if (n == "memcmp" || n == "bcmp") {
        if (!isC(a[2][0])) unsupported("memcmp with symbolic length");
        Node *r = mkConst(0, 32);
        Type *b = Type::getInt8Ty(M->getContext());
        for (u64 i = a[2][0]->k; i-- > 0;) { Val p, q; loadLeaf(st, mkBin(ADD, a[0][0], mkConst(i, 64)), b, p); loadLeaf(st, mkBin(ADD, a[1][0], mkConst(i, 64)), b, q); r = mkIte(mkEq(p[0], q[0]), r, mkBin(SUB, mkZext(p[0], 32), mkZext(q[0], 32))); }
        ret.push_back(r); return;
    }
    if (n == "strlen") { string s = cstr(st, a[0][0]); ret.push_back(mkConst(s.size(), 64)); return; }
    if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail" || n == "__assert") throw Dead();
    if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "perror" || n == "fputc" || n == "fwrite") { if (x.w) ret.push_back(mkConst(0, x.w)); return; }
    if (n == "malloc" || n == "calloc") { Node *sz = n == "calloc" ? mkBin(MUL, a[0][0], a[1][0]) : a[0][0]; if (!isC(sz)) unsupported("malloc with symbolic size"); u32 o = newObj(st, sz->k, 64, "heap", n == "calloc" ? 0 : -1); ret.push_back(mkConst(g_objs[o].base, 64)); return; }
    if (n == "free") return;
    handled = false;
}
static void execIns(Ins &x, Frame &fr, State &st) {
    Instruction *I = x.I;
    g_steps++;
    if ((g_steps & 0xffff) == 0 && now() - t_start > t_limit) unsupported("time limit");
    Val r;
    auto A = [&](unsigned i) -> const Val & { return opv(fr, x.o[i]); };
    switch (x.op) {
#define B(ins, op) case Instruction::ins: { const Val &a = A(0); const Val &b = A(1); for (size_t i = 0; i < a.size(); i++) r.push_back(mkBin(op, a[i], b[i])); break; }
    B(Add, ADD) B(Sub, SUB) B(Mul, MUL) B(UDiv, UDIV) B(URem, UREM) B(SDiv, SDIV) B(SRem, SREM) B(And, AND) B(Or, OR) B(Xor, XOR) B(Shl, SHL) B(LShr, LSHR) B(AShr, ASHR)
    case Instruction::ICmp: { const Val &a = A(0); const Val &b = A(1); auto p = cast<ICmpInst>(I)->getPredicate(); for (size_t i = 0; i < a.size(); i++) r.push_back(icmp(p, a[i], b[i])); break; }
    case Instruction::Select: { const Val &c = A(0); const Val &a = A(1); const Val &b = A(2); for (size_t i = 0; i < a.size(); i++) r.push_back(mkIte(c.size() == a.size() ? c[i] : c[0], a[i], b[i])); break; }
    case Instruction::ZExt: case Instruction::Trunc: case Instruction::PtrToInt: case Instruction::IntToPtr: for (Node *n : A(0)) r.push_back(mkZext(n, x.w)); break;
    case Instruction::SExt: for (Node *n : A(0)) r.push_back(mkSext(n, x.w)); break;
    case Instruction::Freeze: r = A(0); break;
    case Instruction::BitCast: { Val a = A(0); unsigned fw = widthOf(x.o[0].c ? x.o[0].c->getType() : I->getOperand(0)->getType()); r = gather(a, fw, x.w); break; }
    case Instruction::GetElementPtr: {
        auto *g = cast<GetElementPtrInst>(I);
        Node *addr = A(0)[0]; unsigned k = 1;
        u64 off = 0; Node *sym = nullptr;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++k) {
            const Val &ix = A(k);
            if (StructType *s = it.getStructTypeOrNull()) { off += DL->getStructLayout(s)->getElementOffset(ix[0]->k); continue; }
            u64 es = DL->getTypeAllocSize(it.getIndexedType());
            Node *n = mkSext(ix[0], 64);
            if (isC(n)) off += n->k * es;
            else { Node *t = mkBin(MUL, n, mkConst(es, 64)); sym = sym ? mkBin(ADD, sym, t) : t; }
        }
        if (sym) { if (isC(addr)) addr = mkBin(ADD, sym, mkConst(addr->k + off, 64)); else addr = mkBin(ADD, mkBin(ADD, addr, sym), mkConst(off, 64)); }
        else addr = mkBin(ADD, addr, mkConst(off, 64));
        r.push_back(addr); break;
    }
    case Instruction::Load: { whereAmI = fr.f->F->getName().str(); loadLeaf(st, A(0)[0], I->getType(), r); break; }
    case Instruction::Store: { whereAmI = fr.f->F->getName().str(); unsigned k = 0; Val v = A(0); storeLeaf(st, A(1)[0], I->getOperand(0)->getType(), v, k); return; }
    case Instruction::Alloca: {
        auto *al = cast<AllocaInst>(I); Node *n = A(0)[0]; if (!isC(n)) unsupported("symbolic alloca size");
        u64 sz = DL->getTypeAllocSize(al->getAllocatedType()) * n->k;
        u32 o = newObj(st, sz ? sz : 1, al->getAlign().value(), fr.f->F->getName().str() + ":" + al->getName().str(), -1);
        fr.allocas.push_back(o);
        r.push_back(mkConst(g_objs[o].base, 64)); break;
    }
    case Instruction::ExtractElement: { const Val &v = A(0); Node *i = A(1)[0]; if (isC(i)) r.push_back(v[i->k]); else { Node *y = v[v.size() - 1]; for (size_t k = v.size() - 1; k-- > 0;) y = mkIte(mkEq(i, mkConst(k, i->w)), v[k], y); r.push_back(y); } break; }
    case Instruction::InsertElement: { r = A(0); Node *i = A(2)[0]; if (!isC(i)) unsupported("insertelement index"); r[i->k] = A(1)[0]; break; }
    case Instruction::ShuffleVector: { const Val &a = A(0); const Val &b = A(1); for (int m : cast<ShuffleVectorInst>(I)->getShuffleMask()) r.push_back(m < 0 ? mkConst(0, a[0]->w) : m < (int)a.size() ? a[m] : b[m - a.size()]); break; }
    case Instruction::ExtractValue: { auto *e = cast<ExtractValueInst>(I); Type *t = e->getAggregateOperand()->getType(); unsigned k = 0; for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) k += lanesOf(s->getElementType(j)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k += ix * lanesOf(t); } } for (unsigned j = 0; j < lanesOf(t); j++) r.push_back(A(0)[k + j]); break; }
    case Instruction::InsertValue: { auto *e = cast<InsertValueInst>(I); Type *t = e->getAggregateOperand()->getType(); unsigned k = 0; for (unsigned ix : e->indices()) { if (auto *s = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < ix; j++) k += lanesOf(s->getElementType(j)); t = s->getElementType(ix); } else { t = cast<ArrayType>(t)->getElementType(); k += ix * lanesOf(t); } } r = A(0); const Val &v = A(1); for (unsigned j = 0; j < v.size(); j++) r[k + j] = v[j]; break; }
    case Instruction::Call: {
        auto *ci = cast<CallInst>(I);
        if (ci->isInlineAsm()) { // empty asm used as a compiler barrier
            auto *ia = cast<InlineAsm>(ci->getCalledOperand()); if (ia->getAsmString().empty() && I->getType()->isVoidTy()) return; unsupported("inline assembly: " + ia->getAsmString()); }
        Function *F = ci->getCalledFunction();
        if (!F) { Val f = A(x.o.size() - 1); if (f.size() && isC(f[0]) && g_faddr.count(f[0]->k)) F = g_faddr[f[0]->k]; else unsupported("indirect call"); }
        vector<Val> args; for (unsigned i = 0; i < ci->arg_size(); i++) { if (ci->getArgOperand(i)->getType()->isMetadataTy()) { args.push_back(Val()); continue; } args.push_back(A(i)); }
        string n = F->getName().str();
        whereAmI = fr.f->F->getName().str();
        if (F->isDeclaration()) {
            bool h = false;
            if (F->isIntrinsic()) h = intrinsic(x, fr, st, n, args, r);
            else external(n, args, st, r, x, h);
            if (!h) unsupported("call to " + n);
        } else if (!callFn(F, args, st, r)) throw Dead();
        if (x.dst < 0) return;
        break;
    }
    default: { string s; raw_string_ostream os(s); I->print(os); unsupported("instruction " + os.str()); }
    }
    if (x.dst >= 0) { if (r.empty()) unsupported("no result value"); fr.r[x.dst] = r; }
}
static int g_calldepth = 0;
static bool callFn(Function *F, vector<Val> &args, State &st, Val &ret) {
    if (++g_calldepth > 2000) unsupported("call depth");
    Fn &f = getFn(F);
    Frame fr; fr.f = &f; fr.r.resize(f.nregs);
    for (size_t i = 0; i < F->arg_size() && i < args.size(); i++) fr.r[i] = args[i];
    if (args.size() > F->arg_size() && F->isVarArg()) unsupported("variadic call");
    Outcome o = run(fr, st, 0, -1, -1, false);
    g_calldepth--;
    for (u32 a : fr.allocas) if (a < st.mem.size()) st.mem[a].reset();
    if (o.k == Outcome::DEAD) return false;
    ret = o.ret;
    return true;
}
static void doPhis(Frame &fr, int bi, int prev) {
    Blk &b = fr.f->b[bi];
    if (b.phis.empty()) return;
    vector<std::pair<int, Val>> t;
    BasicBlock *pb = fr.f->b[prev].bb;
    for (Ins &x : b.phis) { auto *p = cast<PHINode>(x.I); int k = p->getBasicBlockIndex(pb); Val v; 
        Opnd &o = x.o[k]; if (o.reg >= 0) v = fr.r[o.reg]; else v = opv(fr, o); t.push_back({x.dst, v}); }
    for (auto &x : t) fr.r[x.first] = x.second;
}
static void mergeStates(Node *c, State &a, State &b, size_t pcn) { // result in a
    g_merges++;
    size_t n = std::max(a.mem.size(), b.mem.size());
    a.mem.resize(n); b.mem.resize(n);
    for (size_t o = 0; o < n; o++) {
        if (a.mem[o] == b.mem[o]) continue;
        if (!a.mem[o]) { a.mem[o] = b.mem[o]; continue; }
        if (!b.mem[o]) continue;
        for (size_t p = 0; p < a.mem[o]->pages.size(); p++) {
            Page *x = a.mem[o]->pages[p].p, *y = b.mem[o]->pages[p].p;
            if (x == y || !memcmp(x->b, y->b, sizeof x->b)) continue;
            Page *d = own(a, o)->pages[p].own();
            for (int i = 0; i < 64; i++) { Node *u = d->b[i], *v = y->b[i]; if (u == v) continue; if (!u || !v) { u64 off = p * 64 + i; if (off >= g_objs[o].size) continue; Node *fresh = mkVar(8, "undef:" + g_objs[o].name + "+" + std::to_string(off)); if (!u) u = fresh; if (!v) v = fresh; } d->b[i] = mkIte(c, u, v); }
        }
    }
    // path conditions
    Node *ea = mkTrue(), *eb = mkTrue();
    for (size_t i = pcn; i < a.pc.size(); i++) if (a.pc[i] != c) ea = mkBin(AND, ea, a.pc[i]);
    Node *nc = mkNot(c);
    for (size_t i = pcn; i < b.pc.size(); i++) if (b.pc[i] != nc) eb = mkBin(AND, eb, b.pc[i]);
    a.pc.resize(pcn);
    Node *m = mkIte(c, ea, eb);
    if (!isK(m, 1)) a.pc.push_back(m);
}
static bool prune(State &st, Blk &b) { return b.loopExit || g_calldepth > 12 || g_depth > 24 || (st.pc.size() > 0 && false); }
static Outcome run(Frame &fr, State &st, int bi, int prev, int stop, bool phisDone) {
    try {
        for (;;) {
            if (!phisDone && prev >= 0) doPhis(fr, bi, prev);
            if (bi == stop && !phisDone) return {Outcome::REACHED, Val()};
            phisDone = false;
            Blk &b = fr.f->b[bi];
            size_t n = b.body.size();
            for (size_t i = 0; i + 1 < n; i++) execIns(b.body[i], fr, st);
            Ins &t = b.body[n - 1];
            if (t.op == Instruction::Ret) { Outcome o; o.k = Outcome::RETURNED; if (t.o.size()) o.ret = opv(fr, t.o[0]); return o; }
            if (t.op == Instruction::Unreachable) return {Outcome::DEAD, Val()};
            // list of (condition, successor)
            vector<std::pair<Node *, int>> succ;
            if (t.op == Instruction::Br) {
                auto *br = cast<BranchInst>(t.I);
                if (br->isUnconditional()) { prev = bi; bi = fr.f->bi[br->getSuccessor(0)]; continue; }
                Node *c = opv(fr, t.o[0])[0];
                int s0 = fr.f->bi[br->getSuccessor(0)], s1 = fr.f->bi[br->getSuccessor(1)];
                if (isC(c) || s0 == s1) { prev = bi; bi = c->k || s0 == s1 ? s0 : s1; continue; }
                succ.push_back({c, s0}); succ.push_back({mkNot(c), s1});
            } else if (t.op == Instruction::Switch) {
                auto *sw = cast<SwitchInst>(t.I);
                Node *v = opv(fr, t.o[0])[0];
                if (isC(v)) { auto ca = sw->findCaseValue(ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v->k)); prev = bi; bi = fr.f->bi[ca->getCaseSuccessor()]; continue; }
                std::map<int, Node *> by; Node *none = mkTrue();
                for (auto &c : sw->cases()) { Node *e = mkEq(v, mkConst(c.getCaseValue()->getZExtValue(), v->w)); int s = fr.f->bi[c.getCaseSuccessor()]; by[s] = by.count(s) ? mkBin(OR, by[s], e) : e; none = mkBin(AND, none, mkNot(e)); }
                int d = fr.f->bi[sw->getDefaultDest()]; by[d] = by.count(d) ? mkBin(OR, by[d], none) : none;
                for (auto &x : by) if (!isK(x.second, 0)) succ.push_back({x.second, x.first});
            } else unsupported("terminator");
            // drop sides that cannot happen
            vector<std::pair<Node *, int>> live;
            bool pr = g_paths || prune(st, b);
            for (size_t i = 0; i < succ.size(); i++) {
                Node *c = succ[i].first;
                if (isK(c, 0)) continue;
                bool known = false, knownFalse = false;
                for (Node *p : st.pc) { if (p == c) known = true; if (p == mkNot(c)) knownFalse = true; }
                if (!known && !knownFalse) { Node *u = under(st.pc, c, 20000); if (isC(u)) { known = u->k; knownFalse = !u->k; } }
                if (knownFalse) continue;
                if (known) { live.clear(); live.push_back(succ[i]); break; }
                if (getenv("SYMX_DEBUG")) { string is; raw_string_ostream os(is); t.I->print(os); fprintf(stderr, "symbolic branch in %s: %s\n", fr.f->F->getName().str().c_str(), os.str().c_str()); }
                if (pr && !feasible(st.pc, c)) continue;
                live.push_back(succ[i]);
            }
            if (live.empty()) return {Outcome::DEAD, Val()};
            if (live.size() == 1) { if (!isC(live[0].first)) { bool kn = false; for (Node *p : st.pc) kn |= p == live[0].first; (void)kn; } prev = bi; bi = live[0].second; continue; }
            g_forks++;
            if (g_paths) {
                size_t k = 0;
                for (; k + 1 < live.size(); k++) if (spawn()) break;
                st.pc.push_back(live[k].first); prev = bi; bi = live[k].second; continue;
            }
            int join = b.ipdom;
            size_t pcn = st.pc.size();
            // run all sides
            bool have = false; Node *acc = nullptr; Frame mf = fr; State ms; Outcome mo{Outcome::DEAD, Val()};
            State base = st;
            for (auto &s : live) {
                Frame f2 = fr; State s2 = base; s2.pc.push_back(s.first);
                g_depth++;
                int cd = g_calldepth;
                if (g_depth > 3000) unsupported("branch nesting");
                Outcome o = run(f2, s2, s.second, bi, join, false);
                g_calldepth = cd;
                g_depth--;
                if (o.k == Outcome::DEAD) continue;
                if (!have) { have = true; acc = s.first; mf = std::move(f2); ms = std::move(s2); mo = o; continue; }
                if (o.k != mo.k) unsupported("merge of different outcomes");
                // merged so far holds under 'acc'; the new side under s.first
                Node *c = s.first;
                mergeStates(c, s2, ms, pcn);
                for (size_t i = 0; i < f2.r.size(); i++) {
                    Val &x = f2.r[i], &y = mf.r[i];
                    if (x.size() != y.size()) { if (x.empty()) x = y; continue; }
                    for (size_t k = 0; k < x.size(); k++) if (x[k] != y[k]) x[k] = mkIte(c, x[k], y[k]);
                }
                for (size_t k = 0; k < o.ret.size() && k < mo.ret.size(); k++) if (o.ret[k] != mo.ret[k]) o.ret[k] = mkIte(c, o.ret[k], mo.ret[k]);
                for (size_t k = fr.allocas.size(); k < mf.allocas.size(); k++) f2.allocas.push_back(mf.allocas[k]);
                mf = std::move(f2); ms = std::move(s2); mo = o; acc = mkBin(OR, acc, c);
            }
            if (!have) return {Outcome::DEAD, Val()};
            fr = std::move(mf); st = std::move(ms);
            bool seen = false; for (Node *p : st.pc) seen |= p == acc;
            if (!isK(acc, 1) && !seen && live.size() < 1000) { if (!(acc->op == CONST)) st.pc.push_back(acc); }
            if (mo.k == Outcome::RETURNED) return mo;
            // now at the join block, its phis already evaluated
            if (join == stop) return {Outcome::REACHED, Val()};
            prev = bi; bi = join; phisDone = true;
        }
    } catch (Dead &) { return {Outcome::DEAD, Val()}; }
}
// ------------------------------------------------------------------ setup
static void jstr(raw_ostream &o, const string &s) { o << '"'; for (char c : s) { if (c == '"' || c == '\\') o << '\\' << c; else if ((unsigned char)c < 32) o << ' '; else o << c; } o << '"'; }
static void report(const string &status, const string &detail) {
    raw_ostream &o = outs();
    o << "{\"status\":"; jstr(o, status); o << ",\"detail\":"; jstr(o, detail);
    o << ",\"asserts\":["; bool f = true; for (auto &x : g_asserts) { if (!f) o << ","; f = false; o << "{\"msg\":"; jstr(o, x.first); o << ",\"count\":" << x.second.count << ",\"trivial\":" << x.second.trivial << ",\"solved\":" << x.second.solved << ",\"lemma_reused\":" << x.second.cached << ",\"status\":" << x.second.status << "}"; }
    o << "],\"reach\":{"; f = true; for (auto &x : g_reach) { if (!f) o << ","; f = false; jstr(o, x.first); o << ":" << x.second; }
    o << "},\"functions\":["; f = true; for (auto &x : g_funcs) { if (!f) o << ","; f = false; jstr(o, x); }
    o << "],\"steps\":" << g_steps << ",\"forks\":" << g_forks << ",\"merges\":" << g_merges << ",\"paths\":" << (g_sh ? g_sh->paths : 1) << ",\"terms\":" << g_nodes.size() << ",\"queries\":" << g_queries << ",\"solver_s\":" << format("%.3f", g_solver_s) << ",\"wall_s\":" << format("%.3f", now() - t_start);
    o << ",\"inputs\":[";
    f = true; for (Node *n : g_inBytes) { if (!f) o << ","; f = false; o << evalModel(n, g_model); }
    o << "]}\n"; o.flush();
}
static void finishChild(const string &u) {
    if (u.size()) g_unknown = u;
    if (g_async) __sync_sub_and_fetch(&g_sh->running, 1);
    __sync_add_and_fetch(&g_sh->paths, 1);
    collectAll();
    sendStats(); _exit(0);
}
int main(int argc, char **argv) {
    t_start = now();
    LLVMContext ctx; SMDiagnostic err;
    vector<string> real, harness, remove; std::set<string> keep; bool dump = false;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--real") real.push_back(argv[++i]);
        else if (a == "--realkeep") { real.push_back(argv[++i]); keep.insert(real.back()); }
        else if (a == "--harness") harness.push_back(argv[++i]);
        else if (a == "--remove") remove.push_back(argv[++i]);
        else if (a == "--timeout") t_limit = atof(argv[++i]);
        else if (a == "--qtimeout") g_qtimeout = atol(argv[++i]);
        else if (a == "--dump") dump = true;
        else if (a == "--mod127") g_mod127 = true;
        else if (a == "--paths") { g_paths = true; g_jobs = atoi(argv[++i]); g_nothreads = true; g_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sh->running = 1; g_sh->paths = 1; }
        else { errs() << "bad argument " << a << "\n"; return 2; }
    }
    struct rlimit rl; getrlimit(RLIMIT_STACK, &rl);
    for (int i = 0; i < 256; i++) c8[i] = mkConst(i, 8);
    M = std::make_unique<Module>("all", ctx);
    Linker L(*M);
    bool first = true;
    for (auto &p : harness) {
        auto m = parseIRFile(p, err, ctx); if (!m) { err.print("symx", errs()); return 2; }
        if (first) { M->setDataLayout(m->getDataLayout()); M->setTargetTriple(m->getTargetTriple()); first = false; }
        if (L.linkInModule(std::move(m))) return 2;
    }
    for (auto &p : real) {
        string path = p, prefix; size_t at = p.find("="); if (at != string::npos) { prefix = p.substr(0, at); path = p.substr(at + 1); }
        auto m = parseIRFile(path, err, ctx); if (!m) { err.print("symx", errs()); return 2; }
        if (!keep.count(p)) for (auto &r : remove) if (Function *F = m->getFunction(r)) if (!F->isDeclaration()) F->deleteBody();
        if (!prefix.empty()) {
            for (auto &F : *m) if (!F.isDeclaration() || !F.getName().starts_with("llvm.")) { if (F.isDeclaration() && (F.getName() == "memcpy" || F.getName() == "memset" || F.getName() == "memmove" || F.getName() == "memcmp" || F.getName() == "printf" || F.getName() == "puts" || F.getName() == "exit" || F.getName() == "abort" || F.getName() == "putchar" || F.getName() == "fprintf" || F.getName() == "malloc" || F.getName() == "free" || F.getName() == "strlen" || F.getName().starts_with("vc_"))) continue; F.setName(prefix + F.getName().str()); }
            for (auto &G : m->globals()) if (!G.hasLocalLinkage() && G.getName() != "stderr" && G.getName() != "stdout") G.setName(prefix + G.getName().str());
        }
        if (L.linkInModule(std::move(m))) return 2;
    }
    DL = &M->getDataLayout();
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        ModulePassManager MPM; MPM.addPass(AlwaysInlinerPass());
        FunctionPassManager FPM; FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(SimplifyCFGPass()); FPM.addPass(SROAPass(SROAOptions::ModifyCFG)); FPM.addPass(EarlyCSEPass(true)); FPM.addPass(InstCombinePass()); FPM.addPass(SimplifyCFGPass()); FPM.addPass(DCEPass());
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    if (dump) { M->print(outs(), nullptr); return 0; }
    State st;
    try {
        for (auto &F : *M) { u64 a = 0x10000 + 16 * g_faddr.size(); g_gaddr[&F] = a; g_faddr[a] = &F; }
        for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 8; u32 o = newObj(st, sz ? sz : 1, 64, G.getName().str(), 0); g_gaddr[&G] = g_objs[o].base; }
        for (auto &G : M->globals()) if (G.hasInitializer()) {
            const Constant *c = G.getInitializer(); if (c->isNullValue() || isa<UndefValue>(c)) continue;
            Val v = constVal(c); unsigned k = 0; storeLeaf(st, mkConst(globalAddr(&G), 64), c->getType(), v, k);
        }
        Function *mn = M->getFunction("main"); if (!mn) unsupported("no main");
        vector<Val> args; for (auto &a : mn->args()) args.push_back(Val(1, mkConst(0, widthOf(a.getType()))));
        Val ret;
        bool ok = callFn(mn, args, st, ret);
        if (g_paths) {
            if (g_pipe >= 0) { finishChild(""); }
            collectAll(); ok = true; }
        bool unk = false; string ud; for (auto &x : g_asserts) if (x.second.status == 2) { unk = true; ud = x.first; }
        if (g_unknown.size()) report("unknown", g_unknown);
        else if (unk) report("unknown", "solver gave no answer: " + ud);
        else if (!ok) report("unknown", "execution does not reach the end");
        else report("ok", "");
    } catch (Violated &) { if (!g_paths) report("violated", g_violation); else if (__sync_bool_compare_and_swap(&g_sh->done, 0, 1)) report("violated", g_violation); }
    catch (Fail &f) {
        if (g_paths) { if (g_pipe >= 0) finishChild(f.what); collectAll(); if (g_unknown.empty()) g_unknown = f.what; report("unknown", g_unknown); }
        else report("unknown", f.what); }
    fflush(stdout); outs().flush();
    _exit(0);
}
