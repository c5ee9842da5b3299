// symx: a symbolic executor for LLVM 18 bitcode (single-threaded C programs).
// Every path's inputs stay symbolic; branches, addresses and assertions are decided by the solver.
#include "expr.h"
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <chrono>
#include <functional>
#include <set>
#include <deque>
#include <algorithm>
#include <random>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <signal.h>
using namespace llvm;

struct Val { E e; uint64_t c; Val() : e(nullptr), c(0) {} Val(uint64_t x) : e(nullptr), c(x) {} Val(E x) : e(x), c(0) { if (x->op == O_CONST) { e = nullptr; c = x->k; } } };
static inline E asE(const Val &v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

[[noreturn]] static void fatal(const std::string &s) { fprintf(stderr, "symx: fatal: %s\n", s.c_str()); exit(3); }

// ---------------------------------------------------------------- options and shared state
static struct {
    std::string bc, entry = "symx_main", out = ".";
    int jobs = 8;
    double maxTime = 600;
    uint64_t maxInst = 200000000ull;
    unsigned rlimit = 40000000;
    int maxFindings = 6;
    uint64_t seed = 1;
    bool verbose = false, profile = false;
    int samples = 3;
    size_t maxRss = 3500;
} opt;

struct Shared { std::atomic<int> active, stop, findings; std::atomic<uint64_t> paths, forks; std::atomic<int> procs; std::atomic<int> crashed; };
static Shared *sh;
static std::chrono::steady_clock::time_point T0;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - T0).count(); }

// ---------------------------------------------------------------- program representation
enum Kind : uint8_t { K_BIN, K_ICMP, K_FCMP, K_CAST, K_GEP, K_LOAD, K_STORE, K_ALLOCA, K_BR, K_CONDBR, K_SWITCH, K_RET, K_CALL, K_SELECT,
    K_COPY, K_EXTRACTV, K_INSERTV, K_UNREACHABLE, K_NOP, K_FNEG };
struct Leaf { uint32_t off; uint8_t w; bool ptr; };
struct Opd { int32_t slot; uint16_t n; std::vector<Val> c; };  // slot < 0: constants
struct Func;
struct State;
struct Inst;
struct Edge { uint32_t pc; std::vector<std::pair<uint32_t, Opd>> copies; };
enum NR { N_OK, N_RESTART, N_KILL, N_ENTER };
typedef NR (*Native)(State &, const Inst &, std::vector<Val> &, std::vector<Val> &);
struct Inst {
    Kind kind; uint8_t w, w2; uint16_t sub; int32_t dst; uint16_t nd;
    std::vector<Opd> ops;
    int64_t off; std::vector<std::pair<uint32_t, int64_t>> scales; std::vector<uint8_t> idxw;
    std::vector<Edge> edges; std::vector<uint64_t> cases;
    std::vector<Leaf> leaves;
    Func *callee; Native native; std::string nname; std::vector<std::pair<uint32_t, uint64_t>> byval; std::vector<uint8_t> argw; bool vararg; uint32_t fixedArgs;
    Func *fn; uint32_t line; const char *file;
};
struct Func { std::string name; Function *f; std::vector<Inst> code; uint32_t nslots = 0; std::vector<std::pair<uint32_t, uint16_t>> params; std::vector<uint64_t> byvalSize;
    bool decoded = false; uint64_t addr; uint64_t execs = 0; bool isVar; Native native = nullptr; };
static std::map<Function *, Func *> funcs;
static std::vector<Func *> funcByIdx;
static const uint64_t FN_BASE = 0x400000000000ull;
static Module *M;
static const DataLayout *DL;

// ---------------------------------------------------------------- memory
enum ObjKind : uint8_t { OB_GLOBAL, OB_CONST, OB_HEAP, OB_STACK };
static uint64_t liveObjs = 0;
struct Obj {
    int rc = 1; uint64_t base; uint32_t size; ObjKind kind; const Inst *site; uint32_t nonconc = 0; // upper bound of bytes that are not concrete
    uint8_t *d; uint8_t *s; E *sym = nullptr; const char *gname = nullptr; bool harness = false;
    Obj(uint64_t b, uint32_t n, ObjKind k) : base(b), size(n), kind(k), site(nullptr) { d = (uint8_t *)malloc(n ? 2 * n : 1); s = d + n; }
    Obj(const Obj &o) : base(o.base), size(o.size), kind(o.kind), site(o.site), nonconc(o.nonconc), gname(o.gname), harness(o.harness) {
        d = (uint8_t *)malloc(size ? 2 * size : 1); s = d + size; memcpy(d, o.d, 2 * size);
        if (o.sym) { sym = (E *)malloc(size * sizeof(E)); memcpy(sym, o.sym, size * sizeof(E)); } }
    ~Obj() { free(d); free(sym); }
};
static Obj *const TOMB = (Obj *)1;
static const uint64_t H_BASE = 0x600000000000ull, S_BASE = 0x7f0000000000ull, SLOT = 0x10000, GAP = 0x1000;
struct Page { int rc = 1; Obj *o[64]; Page() { memset(o, 0, sizeof o); } };
static void oref(Obj *o) { if (o && o != TOMB) o->rc++; }
static void ounref(Obj *o) { if (o && o != TOMB && --o->rc == 0) delete o; }
struct Space {
    uint64_t base; std::vector<Page *> pages; uint32_t top = 0;
    explicit Space(uint64_t b) : base(b) {}
    Space(const Space &x) : base(x.base), pages(x.pages), top(x.top) { for (Page *p : pages) p->rc++; }
    Space &operator=(const Space &) = delete;
    ~Space() { for (Page *p : pages) unref(p); }
    static void unref(Page *p) { if (--p->rc == 0) { for (Obj *o : p->o) ounref(o); delete p; } }
    Obj *get(uint32_t i) const { return i / 64 < pages.size() ? pages[i / 64]->o[i % 64] : nullptr; }
    Page *wpage(uint32_t i)
    {
        while (i / 64 >= pages.size()) pages.push_back(new Page());
        Page *&p = pages[i / 64];
        if (p->rc > 1) { Page *q = new Page(); memcpy(q->o, p->o, sizeof q->o); for (Obj *o : q->o) oref(o); p->rc--; p = q; }
        return p;
    }
    void put(uint32_t i, Obj *o) { Page *p = wpage(i); Obj *old = p->o[i % 64]; p->o[i % 64] = o; ounref(old); }
};

struct Dom { uint64_t w[4]; bool operator==(const Dom &o) const { return !memcmp(w, o.w, 32); }
    bool empty() const { return !(w[0] | w[1] | w[2] | w[3]); } bool has(unsigned i) const { return w[i >> 6] >> (i & 63) & 1; }
    unsigned count() const { return __builtin_popcountll(w[0]) + __builtin_popcountll(w[1]) + __builtin_popcountll(w[2]) + __builtin_popcountll(w[3]); }
    unsigned first() const { for (int i = 0; i < 4; i++) if (w[i]) return i * 64 + __builtin_ctzll(w[i]); return 0; }
    Dom operator&(const Dom &o) const { Dom r; for (int i = 0; i < 4; i++) r.w[i] = w[i] & o.w[i]; return r; } };

struct Input { std::string name; uint8_t w; char kind; }; // kind: b byte, r range, u wide, d double, R real
static std::vector<Input> dummyInputs;

struct Frame { Func *f; uint32_t pc; uint32_t base; int32_t retDst; uint32_t stackMark; uint64_t va; uint32_t lastCallLine; };
static uint64_t nextStateId = 1;
struct State {
    uint64_t id = nextStateId++;
    std::vector<Frame> fr; std::vector<Val> regs;
    Space heap{H_BASE}, stk{S_BASE};
    std::vector<E> cons; std::vector<Dom> dom; std::vector<uint8_t> entangled, fixedv; std::vector<Input> inputs; Model model; bool modelBad = false;
    std::vector<std::pair<E, uint64_t>> eq; std::vector<E> realAssume;
    std::vector<std::pair<Val, uint8_t>> obs;
    uint64_t ninst = 0; uint32_t depth = 0; uint32_t uninitCtr = 0; int64_t liveHeap = 0; uint64_t instBudget = 0;
    bool opaqueD = false, exitOk = false; uint32_t note = 0; std::vector<std::pair<std::string, Val>> notes;
    State() {}
    State(const State &o) : fr(o.fr), regs(o.regs), heap(o.heap), stk(o.stk), cons(o.cons), dom(o.dom), entangled(o.entangled), fixedv(o.fixedv), inputs(o.inputs),
        model(o.model), modelBad(o.modelBad), eq(o.eq), realAssume(o.realAssume), obs(o.obs), ninst(o.ninst), depth(o.depth), uninitCtr(o.uninitCtr), liveHeap(o.liveHeap), instBudget(o.instBudget),
        opaqueD(o.opaqueD), exitOk(o.exitOk), note(o.note), notes(o.notes) {}
    Val &reg(uint32_t i) { return regs[fr.back().base + i]; }
};

static std::deque<State *> work;
static struct { uint64_t paths = 0, killed = 0, forks = 0, insts = 0, branches = 0, symBranches = 0, asserts = 0, assertsSolver = 0, findings = 0, incomplete = 0, domHits = 0, modelHits = 0, unknown = 0, realQ = 0, realUnknown = 0; } stats;
static std::vector<std::string> incompleteWhy;
static std::map<std::string, uint64_t> reached;
static std::map<std::string, uint64_t> assertStats;

static std::map<std::pair<const Inst *, int>, uint64_t> forkProf;

// ---------------------------------------------------------------- solver front end
static std::unordered_map<E, Dom> domCache;
static bool single(E c, const State &st, uint32_t &s)
{
    if (c->sup->size() != 1) return false;
    s = (*c->sup)[0];
    if (s >= UNINIT_BASE) return false;
    return st.inputs[s].w <= 8;
}
static const Dom &domOf(E c, uint32_t s, unsigned w)
{
    auto it = domCache.find(c);
    if (it != domCache.end()) return it->second;
    Dom d = {{0, 0, 0, 0}};
    Model m;
    for (unsigned v = 0; v < (1u << w); v++)
    {
        m.set(s, v);
        if (evalExpr(c, m)) d.w[v >> 6] |= 1ull << (v & 63);
    }
    return domCache[c] = d;
}
static E domConstraint(uint32_t s, unsigned w, const Dom &d)
{
    // disjunction of intervals
    E sym = mkSym(s, w);
    E r = mkConst(0, 1);
    unsigned n = 1u << w;
    for (unsigned v = 0; v < n;)
    {
        if (!d.has(v)) { v++; continue; }
        unsigned u = v;
        while (u + 1 < n && d.has(u + 1)) u++;
        E iv = v == u ? mkOp(O_EQ, 1, sym, mkConst(v, w)) : mkOp(O_AND, 1, mkOp(O_ULE, 1, mkConst(v, w), sym), mkOp(O_ULE, 1, sym, mkConst(u, w)));
        r = mkOp(O_OR, 1, r, iv);
        v = u + 1;
    }
    return r;
}
struct CacheEnt { SR r; std::vector<std::pair<uint32_t, uint64_t>> m; };
struct VecH { size_t operator()(const std::vector<uint64_t> &v) const { size_t h = 17; for (uint64_t x : v) h = (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 31); return h; } };
static std::unordered_map<std::vector<uint64_t>, CacheEnt, VecH> qcache;

static SR query(const State &st, E c, Model &m)
{
    // slice of the path condition connected to c
    std::vector<E> cs{c};
    std::set<uint32_t> syms(c->sup->begin(), c->sup->end());
    std::vector<bool> used(st.cons.size(), false);
    for (bool ch = true; ch;)
    {
        ch = false;
        for (size_t i = 0; i < st.cons.size(); i++)
        {
            if (used[i]) continue;
            for (uint32_t s : *st.cons[i]->sup)
                if (syms.count(s))
                {
                    used[i] = true; ch = true;
                    cs.push_back(st.cons[i]);
                    syms.insert(st.cons[i]->sup->begin(), st.cons[i]->sup->end());
                    break;
                }
        }
    }
    std::vector<std::pair<uint32_t, unsigned>> sv;
    std::vector<uint64_t> key;
    for (E x : cs) key.push_back(x->id);
    std::sort(key.begin() + 1, key.end());
    for (uint32_t s : syms)
    {
        if (s >= UNINIT_BASE) continue;
        sv.push_back({s, st.inputs[s].w});
        key.push_back(0xF000000000000000ull + ((uint64_t)s << 8) + st.inputs[s].w);
        if (st.inputs[s].w <= 8)
        {
            const Dom &d = st.dom[s];
            for (int i = 0; i < 4; i++) key.push_back(d.w[i]);
        }
    }
    auto it = qcache.find(key);
    if (it != qcache.end())
    {
        solverStats.cacheHits++;
        if (it->second.r == S_SAT) for (auto &p : it->second.m) m.set(p.first, p.second);
        return it->second.r;
    }
    for (auto &p : sv)
        if (p.second <= 8)
        {
            const Dom &d = st.dom[p.first];
            if (d.count() != (1u << p.second)) cs.push_back(domConstraint(p.first, p.second, d));
        }
    SR r = solveBV(cs, sv, m, opt.rlimit);
    CacheEnt ce{r, {}};
    if (r == S_SAT) for (auto &p : sv) ce.m.push_back({p.first, m.get(p.first)});
    if (r == S_UNKNOWN) stats.unknown++;
    if (qcache.size() > 400000) qcache.clear();
    qcache[key] = ce;
    return r;
}

static void incompl(const std::string &why)
{
    stats.incomplete++;
    for (auto &s : incompleteWhy) if (s == why) return;
    if (incompleteWhy.size() < 20) incompleteWhy.push_back(why);
}

// feasibility of PC & c; on SAT m is a model of both
static SR feasible(const State &st, E c, Model &m)
{
    if (c->op == O_CONST) return c->k ? S_SAT : S_UNSAT;
    uint32_t s;
    if (single(c, st, s))
    {
        unsigned w = st.inputs[s].w;
        Dom d = st.dom[s] & domOf(c, s, w);
        if (d.empty()) { stats.domHits++; return S_UNSAT; }
        if (!st.entangled[s]) { stats.domHits++; if (!d.has(m.get(s))) m.set(s, d.first()); return S_SAT; }
    }
    if (!st.modelBad && !c->uninit && evalExpr(c, m)) { stats.modelHits++; return S_SAT; }
    SR r = query(st, c, m);
    return r;
}

static void addCons(State &st, E c)
{
    if (c->op == O_CONST) return;
    if (c->op == O_AND && c->w == 1) { addCons(st, c->a[0]); addCons(st, c->a[1]); return; }
    if (c->op == O_NOT && c->a[0]->op == O_OR && c->w == 1) { addCons(st, mkNot(c->a[0]->a[0])); addCons(st, mkNot(c->a[0]->a[1])); return; }
    uint32_t s;
    if (single(c, st, s))
    {
        unsigned w = st.inputs[s].w;
        st.dom[s] = st.dom[s] & domOf(c, s, w);
        if (st.dom[s].count() == 1) st.fixedv[s] = 1;
        return;
    }
    for (E x : st.cons) if (x == c) return;
    st.cons.push_back(c);
    for (uint32_t x : *c->sup) if (x < UNINIT_BASE) st.entangled[x] = 1;
    if (c->op == O_EQ && c->a[1]->op == O_CONST) st.eq.push_back({c->a[0], c->a[1]->k});
}
static void takeModel(State &st, const Model &m, E c)
{
    st.model = m;
    if (c->hasuf && !evalExpr(c, m)) st.modelBad = true;
}

// try to turn v into a concrete value using what the path already fixes
static Val resolve(State &st, const Val &v)
{
    if (!v.e) return v;
    E e = v.e;
    for (auto it = st.eq.rbegin(); it != st.eq.rend(); ++it) if (it->first == e) return Val(it->second);
    if (e->uninit || e->real) return v;
    for (uint32_t s : *e->sup) if (!st.fixedv[s]) return v;
    return Val(evalExpr(e, st.model));
}

static State *cloneState(State &st)
{
    State *n = new State(st);
    n->depth++;
    st.depth++;
    stats.forks++;
    return n;
}
static void profFork(State &st, int why)
{
    if (!opt.profile) return;
    const Frame &f = st.fr.back();
    forkProf[{&f.f->code[f.pc], why}]++;
}

// ---------------------------------------------------------------- findings and path ends
static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
static std::string inputsJson(const State &st, const Model &m)
{
    std::string s = "[";
    for (size_t i = 0; i < st.inputs.size(); i++)
    {
        char b[64];
        snprintf(b, sizeof b, "\",\"%c\",\"%llu\"]", st.inputs[i].kind, (unsigned long long)(m.get(i) & maskw(st.inputs[i].w)));
        if (i) s += ",";
        s += "[\"" + st.inputs[i].name + b;
    }
    return s + "]";
}
static std::string stackStr(const State &st)
{
    std::string s;
    for (size_t i = st.fr.size(); i-- > 0;)
    {
        const Frame &f = st.fr[i];
        const Inst &in = f.f->code[f.pc];
        if (!s.empty()) s += " < ";
        s += f.f->name;
        if (in.line) s += ":" + std::to_string(in.line);
        if (st.fr.size() - i > 14) break;
    }
    return s;
}
static FILE *outF;
static FILE *outFile()
{
    if (!outF)
    {
        std::string p = opt.out + "/res." + std::to_string(getpid()) + ".jsonl";
        outF = fopen(p.c_str(), "w");
        if (!outF) fatal("cannot write " + p);
    }
    return outF;
}
static std::map<std::string, int> findingSeen;
static void finding(State &st, const std::string &kind, const std::string &msg, const Model &m)
{
    std::string key = kind + "|" + msg + "|" + st.fr.back().f->name;
    int &n = findingSeen[key];
    n++;
    stats.findings++;
    if (n > 3) return;
    fprintf(outFile(), "{\"t\":\"finding\",\"kind\":%s,\"msg\":%s,\"stack\":%s,\"uf\":%d,\"inputs\":%s}\n", jstr(kind).c_str(), jstr(msg).c_str(), jstr(stackStr(st)).c_str(), (int)st.modelBad, inputsJson(st, m).c_str());
    fflush(outF);
    if (++sh->findings >= opt.maxFindings) sh->stop = 1;
    if (opt.verbose) fprintf(stderr, "finding: %s: %s [%s]\n", kind.c_str(), msg.c_str(), stackStr(st).c_str());
}
static std::vector<std::string> samples;
static std::mt19937_64 rng;
static void endPath(State &st, const char *how)
{
    stats.paths++;
    sh->paths++;
    std::string key = how;
    reached["path-end:" + key]++;
    if (!st.modelBad && opt.samples > 0)
    {
        bool take = (int)samples.size() < opt.samples;
        size_t pos = samples.size();
        if (!take && rng() % stats.paths < (uint64_t)opt.samples) { take = true; pos = rng() % samples.size(); }
        if (take)
        {
            std::string s = "{\"t\":\"sample\",\"how\":\"" + key + "\",\"inputs\":" + inputsJson(st, st.model) + ",\"obs\":[";
            bool first = true;
            for (auto &o : st.obs)
            {
                uint64_t v = o.first.e ? evalExpr(o.first.e, st.model) : o.first.c;
                if (o.second == 64 + 1 && std::isnan(bits2d(v))) v = 0x7ff8000000000000ull;
                char b[32];
                snprintf(b, sizeof b, "%s\"%llu\"", first ? "" : ",", (unsigned long long)v);
                first = false;
                s += b;
            }
            s += "]}";
            if (pos >= samples.size()) samples.push_back(s); else samples[pos] = s;
        }
    }
}

// ---------------------------------------------------------------- memory operations
static Val freshUninit(State &st, unsigned w) { return Val(mkUninit(st.uninitCtr++, w)); }
static Obj *findObj(State &st, uint64_t addr, Space *&sp, uint32_t &idx)
{
    if (addr >= H_BASE && addr < H_BASE + ((uint64_t)st.heap.top << 16)) { sp = &st.heap; idx = (addr - H_BASE) >> 16; return st.heap.get(idx); }
    if (addr >= S_BASE && addr < S_BASE + ((uint64_t)st.stk.top << 16)) { sp = &st.stk; idx = (addr - S_BASE) >> 16; return st.stk.get(idx); }
    return nullptr;
}
static Obj *allocObj(State &st, Space &sp, uint64_t size, ObjKind k, bool zero)
{
    uint32_t nslots = (size + 2 * GAP + SLOT - 1) / SLOT;
    uint32_t idx = sp.top;
    sp.top += nslots;
    Obj *o = new Obj(sp.base + (uint64_t)idx * SLOT + GAP, size, k);
    memset(o->d, 0, size);
    memset(o->s, zero ? 0 : 1, size);
    o->nonconc = zero ? 0 : size;
    o->site = st.fr.empty() ? nullptr : &st.fr.back().f->code[st.fr.back().pc];
    sp.put(idx, o);
    for (uint32_t i = 1; i < nslots; i++) { o->rc++; sp.put(idx + i, o); }
    return o;
}
static Obj *writable(State &st, Space &sp, uint32_t idx, Obj *o)
{
    sp.wpage(idx);
    uint32_t nslots = (o->size + 2 * GAP + SLOT - 1) / SLOT;
    Obj *cur = sp.get(idx);
    if ((uint32_t)cur->rc <= nslots && sp.pages[idx / 64]->rc == 1)
    {
        if (nslots == 1) return cur;
    }
    if (nslots == 1)
    {
        Obj *n = new Obj(*cur);
        sp.put(idx, n);
        return n;
    }
    // object spanning several slots: privately owned only if all its references come from this space's private pages
    uint32_t first = (o->base - GAP - sp.base) >> 16;
    for (uint32_t i = 0; i < nslots; i++) sp.wpage(first + i);
    if ((uint32_t)cur->rc == nslots) return cur;
    Obj *n = new Obj(*cur);
    n->rc = nslots;
    for (uint32_t i = 0; i < nslots; i++) sp.put(first + i, n);
    return n;
}
static Val readObj(State &st, Obj *o, uint32_t off, unsigned bytes)
{
    if (o->nonconc == 0)
    {
        uint64_t v = 0;
        memcpy(&v, o->d + off, bytes);
        return Val(v);
    }
    bool conc = true;
    for (unsigned i = 0; i < bytes; i++) if (o->s[off + i]) { conc = false; break; }
    if (conc) { uint64_t v = 0; memcpy(&v, o->d + off, bytes); return Val(v); }
    E r = nullptr;
    bool allUn = true;
    for (unsigned i = 0; i < bytes; i++) if (o->s[off + i] != 1) allUn = false;
    if (allUn) return freshUninit(st, bytes * 8);
    for (unsigned i = 0; i < bytes; i++)
    {
        E b;
        if (o->s[off + i] == 0) b = mkConst(o->d[off + i], 8);
        else if (o->s[off + i] == 1) b = freshUninit(st, 8).e;
        else b = o->sym[off + i];
        r = r ? mkConcat(b, r) : b;
    }
    return Val(r);
}
static void writeObj(Obj *o, uint32_t off, unsigned bytes, const Val &v)
{
    if (!v.e)
    {
        memcpy(o->d + off, &v.c, bytes);
        if (o->nonconc) memset(o->s + off, 0, bytes);
        return;
    }
    if (v.e->op == O_UNINIT) { memset(o->s + off, 1, bytes); o->nonconc = 1; return; }
    if (!o->sym) { o->sym = (E *)malloc(o->size * sizeof(E)); }
    for (unsigned i = 0; i < bytes; i++)
    {
        E b = mkExtract(v.e, 8 * i, 8);
        if (b->op == O_CONST) { o->d[off + i] = b->k; o->s[off + i] = 0; }
        else { o->sym[off + i] = b; o->s[off + i] = 2; o->nonconc = 1; }
    }
}
static void copyBytes(Obj *dst, uint32_t doff, Obj *src, uint32_t soff, uint32_t n)
{
    if (!n) return;
    if (dst == src)
    {
        memmove(dst->d + doff, src->d + soff, n);
        memmove(dst->s + doff, src->s + soff, n);
        if (src->sym) memmove(dst->sym + doff, src->sym + soff, n * sizeof(E));
        return;
    }
    memcpy(dst->d + doff, src->d + soff, n);
    if (src->nonconc)
    {
        memcpy(dst->s + doff, src->s + soff, n);
        dst->nonconc = 1;
        if (src->sym) { if (!dst->sym) dst->sym = (E *)malloc(dst->size * sizeof(E)); memcpy(dst->sym + doff, src->sym + soff, n * sizeof(E)); }
    }
    else if (dst->nonconc) memset(dst->s + doff, 0, n);
}
static std::string where(Obj *o)
{
    std::string s = o->kind == OB_HEAP ? "heap block" : o->kind == OB_STACK ? "local variable" : "global";
    if (o->gname) s += std::string(" ") + o->gname;
    s += " of " + std::to_string(o->size) + " bytes";
    if (o->site && o->site->fn) s += " from " + o->site->fn->name + ":" + std::to_string(o->site->line);
    return s;
}
static std::string classify(State &st, uint64_t a, unsigned n, bool write)
{
    Space *sp; uint32_t idx;
    Obj *o = findObj(st, a, sp, idx);
    std::string acc = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes";
    if (a < 0x10000) return acc + " through a null pointer";
    if (o == TOMB) return acc + " in a freed heap block";
    if (!o) return acc + " through a wild pointer";
    if (o->kind == OB_CONST && write && a >= o->base && a + n <= o->base + o->size) return "write to constant memory";
    return acc + " outside of a " + where(o) + " (offset " + std::to_string((int64_t)(a - o->base)) + ")";
}
// concrete address check; returns object or null after reporting
static Obj *access(State &st, uint64_t a, unsigned n, bool write, Space *&sp, uint32_t &idx)
{
    Obj *o = findObj(st, a, sp, idx);
    if (o && o != TOMB && a >= o->base && a + n <= o->base + o->size && !(write && o->kind == OB_CONST)) return o;
    finding(st, "memory", classify(st, a, n, write), st.model);
    return nullptr;
}

// enumerate the values e can take; false if more than lim
static bool enumVals(State &st, E e, size_t lim, std::vector<std::pair<uint64_t, Model>> &out)
{
    uint32_t s;
    if (single(e, st, s))
    {
        Dom d = st.dom[s];
        std::set<uint64_t> seen;
        Model m = st.model, t;
        for (unsigned v = 0; v < (1u << st.inputs[s].w); v++)
        {
            if (!d.has(v)) continue;
            t.set(s, v);
            uint64_t x = evalExpr(e, t);
            if (seen.count(x)) continue;
            Model mm = st.model;
            if (st.entangled[s])
            {
                SR r = feasible(st, mkOp(O_EQ, 1, e, mkConst(x, e->w)), mm);
                if (r == S_UNKNOWN) { incompl("solver gave up"); continue; }
                if (r == S_UNSAT) { seen.insert(x); continue; }
            }
            else mm.set(s, v);
            seen.insert(x);
            out.push_back({x, mm});
            if (out.size() > lim) return false;
        }
        return true;
    }
    while (true)
    {
        Model mm = st.model;
        uint64_t x;
        if (!out.empty() || st.modelBad || e->uninit)
        {
            E c = mkConst(1, 1);
            for (auto &p : out) c = mkOp(O_AND, 1, c, mkNot(mkOp(O_EQ, 1, e, mkConst(p.first, e->w))));
            SR r = c->op == O_CONST ? (c->k ? S_SAT : S_UNSAT) : query(st, c, mm);
            if (r == S_UNKNOWN) { incompl("solver gave up"); return true; }
            if (r == S_UNSAT) return true;
        }
        x = evalExpr(e, mm);
        for (auto &p : out) if (p.first == x) { incompl("value enumeration does not progress"); return true; }
        out.push_back({x, mm});
        if (out.size() > lim) return false;
    }
}

// does v depend on uninitialised memory for some input? If not, drops what does not matter from it.
static bool purgeUninit(State &st, Val &v, const std::string &what)
{
    if (!v.e || !v.e->uninit) return true;
    E z = zeroUninit(v.e);
    E diff = mkNot(mkOp(O_EQ, 1, v.e, z));
    Model m = st.model;
    SR r = feasible(st, diff, m);
    if (r != S_UNSAT) { finding(st, "uninit", what, r == S_SAT ? m : st.model); return false; }
    v = z->op == O_CONST ? Val(z->k) : Val(z);
    v = resolve(st, v);
    return true;
}

// make v concrete; may fork (each fork re-executes the instruction with the value known)
static NR concretize(State &st, const Val &v0, uint64_t &out, size_t lim = 600)
{
    Val v = resolve(st, v0);
    if (!v.e) { out = v.c; return N_OK; }
    if (!purgeUninit(st, v, "a decision or address depends on uninitialised memory")) return N_KILL;
    if (!v.e) { out = v.c; return N_OK; }
    std::vector<std::pair<uint64_t, Model>> vals;
    if (!enumVals(st, v.e, lim, vals)) { incompl("too many values to enumerate at " + stackStr(st)); return N_KILL; }
    if (vals.empty()) return N_KILL;
    if (vals.size() > 1) profFork(st, 2);
    for (size_t i = 1; i < vals.size(); i++)
    {
        State *n = cloneState(st);
        E c = mkOp(O_EQ, 1, v.e, mkConst(vals[i].first, v.e->w));
        addCons(*n, c);
        n->eq.push_back({v.e, vals[i].first});
        takeModel(*n, vals[i].second, c);
        work.push_back(n);
    }
    E c = mkOp(O_EQ, 1, v.e, mkConst(vals[0].first, v.e->w));
    addCons(st, c);
    st.eq.push_back({v.e, vals[0].first});
    takeModel(st, vals[0].second, c);
    out = vals[0].first;
    return N_OK;
}

// decide a condition: 1 true, 0 false, -1 killed. Forks the other side when both are feasible.
static int decide(State &st, const Val &v0, State **other)
{
    *other = nullptr;
    Val v = resolve(st, v0);
    if (!v.e) return v.c & 1;
    stats.symBranches++;
    if (!purgeUninit(st, v, "a decision depends on uninitialised memory")) return -1;
    if (!v.e) return v.c & 1;
    E c = v.e;
    Model mt = st.model, mf = st.model;
    SR t, f;
    E nc = mkNot(c);
    if (!st.modelBad && !c->hasuf)
    {
        if (evalExpr(c, st.model)) { t = S_SAT; f = feasible(st, nc, mf); }
        else { f = S_SAT; t = feasible(st, c, mt); }
    }
    else { t = feasible(st, c, mt); f = feasible(st, nc, mf); }
    if (t == S_UNKNOWN || f == S_UNKNOWN) incompl("solver gave up on a branch at " + stackStr(st));
    if (t != S_SAT && f != S_SAT) return -1;
    if (t == S_SAT && f == S_SAT)
    {
        profFork(st, 1);
        State *n = cloneState(st);
        addCons(*n, nc);
        takeModel(*n, mf, nc);
        *other = n;
        addCons(st, c);
        takeModel(st, mt, c);
        return 1;
    }
    if (t == S_SAT) { if (st.modelBad) addCons(st, c); return 1; }
    if (st.modelBad) addCons(st, nc);
    return 0;
}

static Val ieLoad(State &st, Obj *o, E addr, const std::vector<uint32_t> &offs, unsigned bytes)
{
    Val first = readObj(st, o, offs[0], bytes);
    E r = asE(first, bytes * 8);
    for (size_t i = 1; i < offs.size(); i++)
        r = mkIte(mkOp(O_EQ, 1, addr, mkConst(o->base + offs[i], 64)), asE(readObj(st, o, offs[i], bytes), bytes * 8), r);
    return Val(r);
}

// resolves a symbolic address to one object (forking when it may lie elsewhere). On N_OK, o/addr are set; addr may still be symbolic inside o.
static NR symAccess(State &st, const Val &av, unsigned bytes, bool write, Obj *&o, Space *&sp, uint32_t &idx, E &addr)
{
    Val pv = av;
    if (!purgeUninit(st, pv, "an address depends on uninitialised memory")) return N_KILL;
    addr = pv.e ? pv.e : mkConst(pv.c, 64);
    uint64_t a = evalExpr(addr, st.model);
    o = findObj(st, a, sp, idx);
    bool ok = o && o != TOMB && a >= o->base && a + bytes <= o->base + o->size && !(write && o->kind == OB_CONST);
    if (!ok)
    {
        finding(st, "memory", classify(st, a, bytes, write), st.model);
        // continue with the rest of the address range, if any object is hit there
        std::vector<std::pair<uint64_t, Model>> vals;
        return N_KILL;
    }
    if (o->size < bytes) return N_KILL;
    E in = mkOp(O_ULE, 1, mkOp(O_SUB, 64, addr, mkConst(o->base, 64)), mkConst(o->size - bytes, 64));
    Model mo = st.model;
    E out = mkNot(in);
    SR r = feasible(st, out, mo);
    if (r == S_UNKNOWN) incompl("solver gave up on an address");
    if (r == S_SAT)
    {
        profFork(st, 3);
        State *n = cloneState(st);
        addCons(*n, out);
        takeModel(*n, mo, out);
        work.push_back(n);
        addCons(st, in);
    }
    return N_OK;
}
static NR doLoad(State &st, const Val &a0, unsigned bytes, bool ptr, std::vector<Val> &alts, std::vector<E> &altc, Val &out)
{
    alts.clear();
    Val av = resolve(st, a0);
    Space *sp; uint32_t idx; Obj *o;
    if (!av.e)
    {
        o = access(st, av.c, bytes, false, sp, idx);
        if (!o) return N_KILL;
        out = readObj(st, o, av.c - o->base, bytes);
        return N_OK;
    }
    E addr;
    NR r = symAccess(st, av, bytes, false, o, sp, idx, addr);
    if (r != N_OK) return r;
    // candidate offsets
    std::vector<std::pair<uint64_t, Model>> vals;
    if (!enumVals(st, addr, 2048, vals)) { incompl("too many addresses at " + stackStr(st)); return N_KILL; }
    std::vector<uint32_t> offs;
    bool conc = true;
    for (auto &p : vals)
    {
        offs.push_back(p.first - o->base);
        for (unsigned i = 0; i < bytes; i++) if (o->s[offs.back() + i]) conc = false;
    }
    if (offs.empty()) return N_KILL;
    if (offs.size() == 1) { out = readObj(st, o, offs[0], bytes); return N_OK; }
    if (!conc || !ptr) { out = ieLoad(st, o, addr, offs, bytes); return N_OK; }
    // fork per distinct loaded value
    std::map<uint64_t, std::vector<size_t>> groups;
    for (size_t i = 0; i < offs.size(); i++) groups[readObj(st, o, offs[i], bytes).c].push_back(i);
    if (groups.size() == 1) { out = Val(groups.begin()->first); return N_OK; }
    profFork(st, 4);
    size_t biggest = 0; uint64_t bk = 0;
    for (auto &g : groups) if (g.second.size() > biggest) { biggest = g.second.size(); bk = g.first; }
    E rest = mkConst(1, 1);
    std::vector<std::pair<E, std::pair<Val, Model>>> res;
    for (auto &g : groups)
    {
        if (g.first == bk) continue;
        E c = mkConst(0, 1);
        for (size_t i : g.second) c = mkOp(O_OR, 1, c, mkOp(O_EQ, 1, addr, mkConst(o->base + offs[i], 64)));
        rest = mkOp(O_AND, 1, rest, mkNot(c));
        res.push_back({c, {Val(g.first), vals[g.second[0]].second}});
    }
    res.push_back({rest, {Val(bk), vals[groups[bk][0]].second}});
    for (size_t i = 0; i + 1 < res.size(); i++)
    {
        State *n = cloneState(st);
        addCons(*n, res[i].first);
        takeModel(*n, res[i].second.second, res[i].first);
        // the fork continues after this load
        Frame &f = n->fr.back();
        const Inst &in = f.f->code[f.pc];
        n->reg(in.dst) = res[i].second.first;
        f.pc++;
        work.push_back(n);
    }
    addCons(st, res.back().first);
    takeModel(st, res.back().second.second, res.back().first);
    out = res.back().second.first;
    return N_OK;
}
static NR doStore(State &st, const Val &a0, unsigned bytes, const Val &v)
{
    Val av = resolve(st, a0);
    Space *sp; uint32_t idx; Obj *o;
    uint64_t a;
    if (av.e)
    {
        E addr;
        NR r = symAccess(st, av, bytes, true, o, sp, idx, addr);
        if (r != N_OK) return r;
        r = concretize(st, av, a, 2048);
        if (r != N_OK) return r;
    }
    else a = av.c;
    o = access(st, a, bytes, true, sp, idx);
    if (!o) return N_KILL;
    o = writable(st, *sp, idx, o);
    writeObj(o, a - o->base, bytes, v);
    return N_OK;
}

// ---------------------------------------------------------------- decoding
struct Decoder {
    Func *F;
    std::map<const Value *, uint32_t> slot;
    std::map<const BasicBlock *, uint32_t> start;
    static void leaves(Type *T, uint32_t off, std::vector<Leaf> &out)
    {
        if (auto *S = dyn_cast<StructType>(T))
        {
            const StructLayout *L = DL->getStructLayout(S);
            for (unsigned i = 0; i < S->getNumElements(); i++) leaves(S->getElementType(i), off + L->getElementOffset(i), out);
        }
        else if (auto *A = dyn_cast<ArrayType>(T))
        {
            uint64_t es = DL->getTypeAllocSize(A->getElementType());
            for (unsigned i = 0; i < A->getNumElements(); i++) leaves(A->getElementType(), off + i * es, out);
        }
        else
        {
            unsigned w;
            if (T->isPointerTy()) w = 64;
            else if (T->isIntegerTy()) w = T->getIntegerBitWidth();
            else if (T->isDoubleTy()) w = 64;
            else { std::string s; raw_string_ostream os(s); T->print(os); fatal("unsupported type " + s); }
            if (w > 64) fatal("integer wider than 64 bits");
            out.push_back({off, (uint8_t)w, T->isPointerTy()});
        }
    }
    static unsigned nleaves(Type *T) { if (T->isVoidTy()) return 0; std::vector<Leaf> l; leaves(T, 0, l); return l.size(); }
    static unsigned width(Type *T) { std::vector<Leaf> l; leaves(T, 0, l); return l.size() == 1 ? l[0].w : 0; }
    static Val constVal(const Constant *C);
    static void constLeaves(const Constant *C, std::vector<Val> &out)
    {
        if (C->getType()->isAggregateType())
        {
            unsigned n = C->getType()->isStructTy() ? C->getType()->getStructNumElements() : C->getType()->getArrayNumElements();
            for (unsigned i = 0; i < n; i++)
            {
                const Constant *X = C->getAggregateElement(i);
                if (!X) fatal("aggregate constant");
                constLeaves(X, out);
            }
        }
        else out.push_back(constVal(C));
    }
    Opd opd(const Value *V)
    {
        Opd o; o.slot = -1; o.n = 1;
        if (auto *C = dyn_cast<Constant>(V)) { constLeaves(C, o.c); o.n = o.c.size(); return o; }
        if (isa<MetadataAsValue>(V) || isa<BasicBlock>(V)) { o.c.push_back(Val((uint64_t)0)); return o; }
        o.slot = slot.at(V);
        o.n = nleaves(V->getType());
        return o;
    }
    void run();
};
static std::map<const GlobalVariable *, uint64_t> globalAddr;
static uint32_t undefCtr = 0x10000000;
static std::string constStr(const Constant *C) { std::string s; raw_string_ostream os(s); C->print(os); return s; }
Val Decoder::constVal(const Constant *C)
{
    if (auto *I = dyn_cast<ConstantInt>(C)) { if (I->getBitWidth() > 64) fatal("wide constant"); return Val(I->getZExtValue()); }
    if (auto *D = dyn_cast<ConstantFP>(C)) { if (!D->getType()->isDoubleTy()) fatal("float constant"); return Val(D->getValueAPF().bitcastToAPInt().getZExtValue()); }
    if (isa<ConstantPointerNull>(C)) return Val((uint64_t)0);
    if (isa<UndefValue>(C)) return Val(mkUninit(undefCtr++, width(C->getType())));
    if (auto *G = dyn_cast<GlobalVariable>(C)) { auto it = globalAddr.find(G); if (it == globalAddr.end()) fatal("global without address: " + G->getName().str()); return Val(it->second); }
    if (auto *Fn = dyn_cast<Function>(C)) return Val(funcs.at(const_cast<Function *>(Fn))->addr);
    if (auto *A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
    if (auto *X = dyn_cast<ConstantExpr>(C))
    {
        switch (X->getOpcode())
        {
        case Instruction::GetElementPtr:
        {
            APInt off(64, 0);
            if (!cast<GEPOperator>(X)->accumulateConstantOffset(*DL, off)) fatal("gep constant");
            return Val(constVal(X->getOperand(0)).c + off.getSExtValue());
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constVal(X->getOperand(0));
        case Instruction::Add: return Val((constVal(X->getOperand(0)).c + constVal(X->getOperand(1)).c) & maskw(width(X->getType())));
        case Instruction::Sub: return Val((constVal(X->getOperand(0)).c - constVal(X->getOperand(1)).c) & maskw(width(X->getType())));
        case Instruction::Trunc: return Val(constVal(X->getOperand(0)).c & maskw(width(X->getType())));
        default: break;
        }
    }
    fatal("unsupported constant " + constStr(C));
}
static Op binOp(unsigned op)
{
    switch (op)
    {
    case Instruction::Add: return O_ADD; case Instruction::Sub: return O_SUB; case Instruction::Mul: return O_MUL;
    case Instruction::UDiv: return O_UDIV; case Instruction::SDiv: return O_SDIV; case Instruction::URem: return O_UREM; case Instruction::SRem: return O_SREM;
    case Instruction::Shl: return O_SHL; case Instruction::LShr: return O_LSHR; case Instruction::AShr: return O_ASHR;
    case Instruction::And: return O_AND; case Instruction::Or: return O_OR; case Instruction::Xor: return O_XOR;
    case Instruction::FAdd: return O_FADD; case Instruction::FSub: return O_FSUB; case Instruction::FMul: return O_FMUL; case Instruction::FDiv: return O_FDIV;
    default: fatal("binary operator");
    }
}
static std::map<std::string, Native> natives;
static Native findNative(const std::string &name);

void Decoder::run()
{
    Function *f = F->f;
    uint32_t n = 0;
    for (Argument &A : f->args()) { slot[&A] = n; unsigned k = nleaves(A.getType()); F->params.push_back({n, (uint16_t)k}); n += k;
        F->byvalSize.push_back(A.hasByValAttr() ? (uint64_t)DL->getTypeAllocSize(A.getParamByValType()) : 0); }
    for (Instruction &I : instructions(f)) if (!I.getType()->isVoidTy()) { slot[&I] = n; n += nleaves(I.getType()); }
    F->nslots = n;
    uint32_t pc = 0;
    for (BasicBlock &B : *f) { start[&B] = pc; for (Instruction &I : B) if (!isa<PHINode>(I)) pc++; }
    F->code.reserve(pc);
    auto edge = [&](BasicBlock *from, BasicBlock *to) {
        Edge e; e.pc = start[to];
        for (PHINode &P : to->phis()) e.copies.push_back({slot.at(&P), opd(P.getIncomingValueForBlock(from))});
        return e; };
    for (BasicBlock &B : *f)
        for (Instruction &I : B)
        {
            if (isa<PHINode>(I)) continue;
            F->code.emplace_back();
            Inst &in = F->code.back();
            in.w = in.w2 = 0; in.sub = 0; in.off = 0; in.callee = nullptr; in.native = nullptr; in.fn = F; in.line = 0; in.file = ""; in.vararg = false; in.fixedArgs = 0;
            if (auto &L = I.getDebugLoc()) { in.line = L.getLine(); }
            in.dst = I.getType()->isVoidTy() ? -1 : (int32_t)slot.at(&I);
            in.nd = I.getType()->isVoidTy() ? 0 : nleaves(I.getType());
            if (in.nd == 1) in.w = width(I.getType());
            if (auto *BO = dyn_cast<BinaryOperator>(&I))
            {
                if (BO->getOpcode() == Instruction::FRem) fatal("frem");
                in.kind = K_BIN; in.sub = binOp(BO->getOpcode()); in.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))};
            }
            else if (auto *C = dyn_cast<ICmpInst>(&I)) { in.kind = K_ICMP; in.sub = C->getPredicate(); in.w2 = width(I.getOperand(0)->getType()); in.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))}; }
            else if (auto *C = dyn_cast<FCmpInst>(&I)) { in.kind = K_FCMP; in.sub = C->getPredicate(); in.w2 = 64; in.ops = {opd(I.getOperand(0)), opd(I.getOperand(1))}; }
            else if (I.getOpcode() == Instruction::FNeg) { in.kind = K_FNEG; in.ops = {opd(I.getOperand(0))}; }
            else if (isa<FreezeInst>(I)) { in.kind = K_COPY; in.ops = {opd(I.getOperand(0))}; }
            else if (auto *C = dyn_cast<CastInst>(&I))
            {
                in.kind = K_CAST; in.sub = C->getOpcode(); in.w2 = width(C->getSrcTy()); in.ops = {opd(I.getOperand(0))};
            }
            else if (auto *G = dyn_cast<GetElementPtrInst>(&I))
            {
                in.kind = K_GEP; in.ops = {opd(G->getPointerOperand())};
                for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it)
                {
                    Value *ix = it.getOperand();
                    if (StructType *S = it.getStructTypeOrNull()) in.off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
                    else
                    {
                        int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto *CI = dyn_cast<ConstantInt>(ix)) in.off += CI->getSExtValue() * sc;
                        else { in.scales.push_back({(uint32_t)in.ops.size(), sc}); in.idxw.push_back(width(ix->getType())); in.ops.push_back(opd(ix)); }
                    }
                }
            }
            else if (auto *L = dyn_cast<LoadInst>(&I)) { in.kind = K_LOAD; leaves(L->getType(), 0, in.leaves); in.ops = {opd(L->getPointerOperand())}; }
            else if (auto *S = dyn_cast<StoreInst>(&I)) { in.kind = K_STORE; leaves(S->getValueOperand()->getType(), 0, in.leaves); in.ops = {opd(S->getValueOperand()), opd(S->getPointerOperand())}; }
            else if (auto *A = dyn_cast<AllocaInst>(&I)) { in.kind = K_ALLOCA; in.off = DL->getTypeAllocSize(A->getAllocatedType()); in.ops = {opd(A->getArraySize())}; }
            else if (auto *B2 = dyn_cast<BranchInst>(&I))
            {
                if (B2->isConditional()) { in.kind = K_CONDBR; in.ops = {opd(B2->getCondition())}; in.edges = {edge(&B, B2->getSuccessor(0)), edge(&B, B2->getSuccessor(1))}; }
                else { in.kind = K_BR; in.edges = {edge(&B, B2->getSuccessor(0))}; }
            }
            else if (auto *S = dyn_cast<SwitchInst>(&I))
            {
                in.kind = K_SWITCH; in.ops = {opd(S->getCondition())}; in.w2 = width(S->getCondition()->getType());
                in.edges.push_back(edge(&B, S->getDefaultDest()));
                for (auto &c : S->cases()) { in.cases.push_back(c.getCaseValue()->getZExtValue()); in.edges.push_back(edge(&B, c.getCaseSuccessor())); }
            }
            else if (isa<ReturnInst>(I)) { in.kind = K_RET; if (I.getNumOperands()) in.ops = {opd(I.getOperand(0))}; }
            else if (isa<UnreachableInst>(I)) in.kind = K_UNREACHABLE;
            else if (isa<SelectInst>(I)) { in.kind = K_SELECT; in.ops = {opd(I.getOperand(0)), opd(I.getOperand(1)), opd(I.getOperand(2))}; leaves(I.getType(), 0, in.leaves); }
            else if (auto *X = dyn_cast<ExtractValueInst>(&I))
            {
                in.kind = K_EXTRACTV; in.ops = {opd(X->getAggregateOperand())};
                Type *T = X->getAggregateOperand()->getType(); unsigned k = 0;
                for (unsigned ix : X->indices())
                {
                    for (unsigned j = 0; j < ix; j++) k += nleaves(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType());
                    T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType();
                }
                in.off = k;
            }
            else if (auto *X = dyn_cast<InsertValueInst>(&I))
            {
                in.kind = K_INSERTV; in.ops = {opd(X->getAggregateOperand()), opd(X->getInsertedValueOperand())};
                Type *T = X->getAggregateOperand()->getType(); unsigned k = 0;
                for (unsigned ix : X->indices())
                {
                    for (unsigned j = 0; j < ix; j++) k += nleaves(T->isStructTy() ? T->getStructElementType(j) : T->getArrayElementType());
                    T = T->isStructTy() ? T->getStructElementType(ix) : T->getArrayElementType();
                }
                in.off = k;
            }
            else if (auto *C = dyn_cast<CallInst>(&I))
            {
                in.kind = K_CALL;
                if (isa<DbgInfoIntrinsic>(C)) { in.kind = K_NOP; continue; }
                Function *cal = C->getCalledFunction();
                if (cal && cal->isIntrinsic())
                {
                    auto id = cal->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) { in.kind = K_NOP; continue; }
                }
                if (C->isInlineAsm()) fatal("inline asm in " + F->name);
                for (unsigned i = 0; i < C->arg_size(); i++)
                {
                    in.ops.push_back(opd(C->getArgOperand(i)));
                    Type *T = C->getArgOperand(i)->getType();
                    in.argw.push_back(T->isMetadataTy() ? 0 : width(T));
                    if (C->isByValArgument(i)) in.byval.push_back({i, (uint64_t)DL->getTypeAllocSize(C->getParamByValType(i))});
                }
                in.vararg = C->getFunctionType()->isVarArg();
                in.fixedArgs = C->getFunctionType()->getNumParams();
                if (cal)
                {
                    std::string nm = cal->getName().str();
                    if (cal->isIntrinsic()) nm = nm.substr(0, nm.find('.', 5) == std::string::npos ? std::string::npos : nm.find('.', nm.find('.', 5)));
                    in.nname = cal->getName().str();
                    in.native = findNative(in.nname);
                    if (!cal->isDeclaration()) in.callee = funcs.at(cal);
                    else if (!in.native) in.native = nullptr;
                }
                else in.ops.push_back(opd(C->getCalledOperand()));
            }
            else { std::string s; raw_string_ostream os(s); I.print(os); fatal("unsupported instruction " + s); }
        }
    F->decoded = true;
}

static Val fcmpVal(unsigned pred, const Val &a, const Val &b);
#include "natives.inc"

// ---------------------------------------------------------------- interpreter
static inline const Val &get(State &st, const Opd &o, unsigned i = 0) { return o.slot < 0 ? o.c[i] : st.regs[st.fr.back().base + o.slot + i]; }
static void takeEdge(State &st, const Edge &e)
{
    Frame &f = st.fr.back();
    if (e.copies.size() == 1)
    {
        auto &c = e.copies[0];
        if (c.second.n == 1) st.regs[f.base + c.first] = get(st, c.second);
        else { std::vector<Val> t; for (unsigned i = 0; i < c.second.n; i++) t.push_back(get(st, c.second, i)); for (unsigned i = 0; i < t.size(); i++) st.regs[f.base + c.first + i] = t[i]; }
    }
    else if (!e.copies.empty())
    {
        static std::vector<Val> t;
        t.clear();
        for (auto &c : e.copies) for (unsigned i = 0; i < c.second.n; i++) t.push_back(get(st, c.second, i));
        size_t k = 0;
        for (auto &c : e.copies) for (unsigned i = 0; i < c.second.n; i++) st.regs[f.base + c.first + i] = t[k++];
    }
    f.pc = e.pc;
}
static void popStack(State &st, uint32_t mark)
{
    for (uint32_t i = mark; i < st.stk.top; i++) if (st.stk.get(i)) st.stk.put(i, nullptr);
    st.stk.top = mark;
}
static bool enterFunc(State &st, Func *F, const Inst *call, const std::vector<std::vector<Val>> &args, int32_t retDst)
{
    if (!F->decoded) { Decoder d; d.F = F; d.run(); }
    if (st.fr.size() > 4000) { finding(st, "stack", "unbounded recursion", st.model); return false; }
    F->execs++;
    Frame nf;
    nf.f = F; nf.pc = 0; nf.base = st.regs.size(); nf.retDst = retDst; nf.stackMark = st.stk.top; nf.va = 0; nf.lastCallLine = 0;
    // byval copies live in the callee's frame
    std::vector<std::vector<Val>> a = args;
    uint32_t mark = st.stk.top;
    if (call)
        for (auto &bv : call->byval)
        {
            if (bv.first >= F->params.size()) continue;
            Space *sp; uint32_t idx;
            Val p = resolve(st, a[bv.first][0]);
            if (p.e) { incompl("symbolic byval pointer"); return false; }
            Obj *src = access(st, p.c, bv.second, false, sp, idx);
            if (!src) return false;
            Obj *dst = allocObj(st, st.stk, bv.second, OB_STACK, false);
            copyBytes(dst, 0, src, p.c - src->base, bv.second);
            a[bv.first][0] = Val(dst->base);
        }
    if (F->isVar)
    {
        uint64_t size = 0;
        for (size_t i = F->params.size(); i < a.size(); i++)
        {
            uint64_t sz = 8;
            if (call) for (auto &bv : call->byval) if (bv.first == i) sz = (bv.second + 7) & ~7ull;
            size += sz;
        }
        Obj *area = allocObj(st, st.stk, size, OB_STACK, false);
        uint64_t off = 0;
        for (size_t i = F->params.size(); i < a.size(); i++)
        {
            uint64_t bvs = 0; bool isbv = false;
            if (call) for (auto &bv : call->byval) if (bv.first == i) { bvs = bv.second; isbv = true; }
            if (isbv)
            {
                Space *sp; uint32_t idx;
                Val p = resolve(st, a[i][0]);
                if (p.e) { incompl("symbolic byval pointer"); return false; }
                Obj *src = access(st, p.c, bvs, false, sp, idx);
                if (!src) return false;
                copyBytes(area, off, src, p.c - src->base, bvs);
                off += (bvs + 7) & ~7ull;
            }
            else
            {
                unsigned w = call ? call->argw[i] : 64;
                Val v = a[i][0];
                if (w < 64) v = v.e ? Val(mkOp(O_ZEXT, 64, v.e)) : v;
                writeObj(area, off, 8, v);
                off += 8;
            }
        }
        nf.va = area->base;
    }
    st.regs.resize(st.regs.size() + F->nslots);
    for (size_t i = 0; i < F->params.size(); i++)
        for (unsigned j = 0; j < F->params[i].second; j++) st.regs[nf.base + F->params[i].first + j] = i < a.size() ? a[i][j] : Val((uint64_t)0);
    nf.stackMark = mark;
    st.fr.push_back(nf);
    return true;
}

static Val cmpVal(unsigned pred, unsigned w, const Val &a, const Val &b)
{
    if (!a.e && !b.e)
    {
        uint64_t x = a.c, y = b.c;
        switch (pred)
        {
        case CmpInst::ICMP_EQ: return Val((uint64_t)(x == y)); case CmpInst::ICMP_NE: return Val((uint64_t)(x != y));
        case CmpInst::ICMP_UGT: return Val((uint64_t)(x > y)); case CmpInst::ICMP_UGE: return Val((uint64_t)(x >= y));
        case CmpInst::ICMP_ULT: return Val((uint64_t)(x < y)); case CmpInst::ICMP_ULE: return Val((uint64_t)(x <= y));
        case CmpInst::ICMP_SGT: return Val((uint64_t)(sx(x, w) > sx(y, w))); case CmpInst::ICMP_SGE: return Val((uint64_t)(sx(x, w) >= sx(y, w)));
        case CmpInst::ICMP_SLT: return Val((uint64_t)(sx(x, w) < sx(y, w))); default: return Val((uint64_t)(sx(x, w) <= sx(y, w)));
        }
    }
    E x = asE(a, w), y = asE(b, w);
    switch (pred)
    {
    case CmpInst::ICMP_EQ: return Val(mkOp(O_EQ, 1, x, y)); case CmpInst::ICMP_NE: return Val(mkNot(mkOp(O_EQ, 1, x, y)));
    case CmpInst::ICMP_UGT: return Val(mkOp(O_ULT, 1, y, x)); case CmpInst::ICMP_UGE: return Val(mkOp(O_ULE, 1, y, x));
    case CmpInst::ICMP_ULT: return Val(mkOp(O_ULT, 1, x, y)); case CmpInst::ICMP_ULE: return Val(mkOp(O_ULE, 1, x, y));
    case CmpInst::ICMP_SGT: return Val(mkOp(O_SLT, 1, y, x)); case CmpInst::ICMP_SGE: return Val(mkOp(O_SLE, 1, y, x));
    case CmpInst::ICMP_SLT: return Val(mkOp(O_SLT, 1, x, y)); default: return Val(mkOp(O_SLE, 1, x, y));
    }
}
static Val fcmpVal(unsigned pred, const Val &a, const Val &b)
{
    E x = asE(a, 64), y = asE(b, 64);
    E eq = mkOp(O_FOEQ, 1, x, y), un;
    auto U = [&]() { return mkOp(O_FUNO, 1, x, y); };
    E T = mkConst(1, 1);
    switch (pred)
    {
    case CmpInst::FCMP_FALSE: return Val((uint64_t)0); case CmpInst::FCMP_TRUE: return Val(T);
    case CmpInst::FCMP_OEQ: return Val(eq); case CmpInst::FCMP_UNE: return Val(mkNot(eq));
    case CmpInst::FCMP_OLT: return Val(mkOp(O_FOLT, 1, x, y)); case CmpInst::FCMP_OLE: return Val(mkOp(O_FOLE, 1, x, y));
    case CmpInst::FCMP_OGT: return Val(mkOp(O_FOLT, 1, y, x)); case CmpInst::FCMP_OGE: return Val(mkOp(O_FOLE, 1, y, x));
    case CmpInst::FCMP_UGE: return Val(mkNot(mkOp(O_FOLT, 1, x, y))); case CmpInst::FCMP_UGT: return Val(mkNot(mkOp(O_FOLE, 1, x, y)));
    case CmpInst::FCMP_ULE: return Val(mkNot(mkOp(O_FOLT, 1, y, x))); case CmpInst::FCMP_ULT: return Val(mkNot(mkOp(O_FOLE, 1, y, x)));
    case CmpInst::FCMP_UNO: return Val(U()); case CmpInst::FCMP_ORD: return Val(mkNot(U()));
    case CmpInst::FCMP_UEQ: return Val(mkOp(O_OR, 1, eq, U())); case CmpInst::FCMP_ONE: return Val(mkNot(mkOp(O_OR, 1, eq, U())));
    default: fatal("fcmp");
    }
}

static bool shouldSplit() { return sh->active.load(std::memory_order_relaxed) < opt.jobs; }

// runs st until it ends; false = state finished (delete it)
static void runState(State *sp)
{
    State &st = *sp;
    static std::vector<Val> alts; static std::vector<E> altc;
    uint64_t tick = 0;
    while (true)
    {
        Frame &f = st.fr.back();
        const Inst &in = f.f->code[f.pc];
        st.ninst++;
        stats.insts++;
        if ((++tick & 0xFFF) == 0)
        {
            if (st.ninst > opt.maxInst || (st.instBudget && st.ninst > st.instBudget)) { finding(st, "nontermination", "no end within the instruction budget", st.model); goto kill; }
            if (sh->stop || now() > opt.maxTime) { work.push_back(sp); return; }
            if (work.size() >= 1 && (tick & 0x3FFF) == 0 && shouldSplit()) { work.push_back(sp); return; }
        }
        switch (in.kind)
        {
        case K_NOP: f.pc++; break;
        case K_BIN:
        {
            const Val &a = get(st, in.ops[0]), &b = get(st, in.ops[1]);
            Op op = (Op)in.sub;
            if (op == O_UDIV || op == O_SDIV || op == O_UREM || op == O_SREM)
            {
                if (!b.e) { if (b.c == 0) { finding(st, "divzero", "integer division by zero", st.model); goto kill; } }
                else
                {
                    State *o;
                    Val z = cmpVal(CmpInst::ICMP_NE, in.w, b, Val((uint64_t)0));
                    int r = decide(st, z, &o);
                    if (r < 0) goto kill;
                    if (o) { finding(*o, "divzero", "integer division by zero", o->model); delete o; }
                    if (r == 0) { finding(st, "divzero", "integer division by zero", st.model); goto kill; }
                }
            }
            if (!a.e && !b.e) st.reg(in.dst) = Val(foldOp(op, in.w, in.w, a.c, b.c, 0, 0));
            else st.reg(in.dst) = Val(mkOp(op, in.w, asE(a, in.w), asE(b, in.w)));
            f.pc++;
            break;
        }
        case K_FNEG: { const Val &a = get(st, in.ops[0]); st.reg(in.dst) = a.e ? Val(mkOp(O_FNEG, 64, a.e)) : Val(a.c ^ 0x8000000000000000ull); f.pc++; break; }
        case K_ICMP: st.reg(in.dst) = cmpVal(in.sub, in.w2, get(st, in.ops[0]), get(st, in.ops[1])); f.pc++; break;
        case K_FCMP: st.reg(in.dst) = fcmpVal(in.sub, get(st, in.ops[0]), get(st, in.ops[1])); f.pc++; break;
        case K_CAST:
        {
            const Val &a = get(st, in.ops[0]);
            Op op;
            switch (in.sub)
            {
            case Instruction::ZExt: if (!a.e) { st.reg(in.dst) = a; f.pc++; continue; } op = O_ZEXT; break;
            case Instruction::PtrToInt: case Instruction::IntToPtr:
            case Instruction::BitCast: case Instruction::Trunc:
                if (in.w < in.w2) { st.reg(in.dst) = a.e ? Val(mkExtract(a.e, 0, in.w)) : Val(a.c & maskw(in.w)); f.pc++; continue; }
                if (in.w > in.w2) { st.reg(in.dst) = a.e ? Val(mkOp(O_ZEXT, in.w, a.e)) : a; f.pc++; continue; }
                st.reg(in.dst) = a; f.pc++; continue;
            case Instruction::SExt: op = O_SEXT; break;
            case Instruction::FPToSI: op = O_FPTOSI; break;
            case Instruction::FPToUI: op = O_FPTOUI; break;
            case Instruction::SIToFP: op = O_SITOFP; break;
            case Instruction::UIToFP: op = O_UITOFP; break;
            default: fatal("cast");
            }
            if (!a.e) st.reg(in.dst) = Val(foldOp(op, in.w, in.w2, a.c, 0, 0, 0));
            else st.reg(in.dst) = Val(mkOp(op, in.w, a.e));
            f.pc++;
            break;
        }
        case K_GEP:
        {
            Val p = get(st, in.ops[0]);
            uint64_t coff = in.off;
            E soff = nullptr;
            for (size_t i = 0; i < in.scales.size(); i++)
            {
                const Val &x = get(st, in.ops[in.scales[i].first]);
                if (!x.e) coff += sx(x.c, in.idxw[i]) * in.scales[i].second;
                else
                {
                    E t = mkOp(O_MUL, 64, mkOp(O_SEXT, 64, x.e), mkConst(in.scales[i].second, 64));
                    soff = soff ? mkOp(O_ADD, 64, soff, t) : t;
                }
            }
            if (!p.e && !soff) st.reg(in.dst) = Val(p.c + coff);
            else
            {
                E e = asE(p, 64);
                if (soff) e = mkOp(O_ADD, 64, soff, e);
                st.reg(in.dst) = Val(mkOp(O_ADD, 64, e, mkConst(coff, 64)));
            }
            f.pc++;
            break;
        }
        case K_LOAD:
        {
            if (in.leaves.size() == 1)
            {
                Val out;
                unsigned bytes = (in.leaves[0].w + 7) / 8;
                NR r = doLoad(st, get(st, in.ops[0]), bytes, in.leaves[0].ptr, alts, altc, out);
                if (r == N_KILL) goto kill;
                if (in.leaves[0].w % 8) out = out.e ? Val(mkExtract(out.e, 0, in.leaves[0].w)) : Val(out.c & maskw(in.leaves[0].w));
                st.reg(in.dst) = out;
            }
            else
            {
                uint64_t a;
                NR r = concretize(st, get(st, in.ops[0]), a);
                if (r != N_OK) goto kill;
                for (size_t i = 0; i < in.leaves.size(); i++)
                {
                    Val out;
                    r = doLoad(st, Val(a + in.leaves[i].off), (in.leaves[i].w + 7) / 8, false, alts, altc, out);
                    if (r != N_OK) goto kill;
                    st.reg(in.dst + i) = out;
                }
            }
            st.fr.back().pc++;
            break;
        }
        case K_STORE:
        {
            if (in.leaves.size() == 1)
            {
                Val v = get(st, in.ops[0]);
                if (in.leaves[0].w % 8 && v.e) v = Val(mkOp(O_ZEXT, (in.leaves[0].w + 7) / 8 * 8, v.e));
                NR r = doStore(st, get(st, in.ops[1]), (in.leaves[0].w + 7) / 8, v);
                if (r == N_KILL) goto kill;
            }
            else
            {
                uint64_t a;
                NR r = concretize(st, get(st, in.ops[1]), a);
                if (r != N_OK) goto kill;
                for (size_t i = 0; i < in.leaves.size(); i++)
                {
                    r = doStore(st, Val(a + in.leaves[i].off), (in.leaves[i].w + 7) / 8, get(st, in.ops[0], i));
                    if (r != N_OK) goto kill;
                }
            }
            st.fr.back().pc++;
            break;
        }
        case K_ALLOCA:
        {
            uint64_t n;
            NR r = concretize(st, get(st, in.ops[0]), n);
            if (r != N_OK) goto kill;
            Obj *o = allocObj(st, st.stk, n * in.off, OB_STACK, false);
            st.reg(in.dst) = Val(o->base);
            st.fr.back().pc++;
            break;
        }
        case K_BR: takeEdge(st, in.edges[0]); stats.branches++; break;
        case K_CONDBR:
        {
            stats.branches++;
            const Val &c = get(st, in.ops[0]);
            if (!c.e) { takeEdge(st, in.edges[c.c & 1 ? 0 : 1]); break; }
            State *o;
            int r = decide(st, c, &o);
            if (r < 0) goto kill;
            if (o) { takeEdge(*o, in.edges[1]); work.push_back(o); }
            takeEdge(st, in.edges[r ? 0 : 1]);
            break;
        }
        case K_SWITCH:
        {
            stats.branches++;
            Val c = resolve(st, get(st, in.ops[0]));
            if (c.e)
            {
                // one fork per feasible case
                if (!purgeUninit(st, c, "a decision depends on uninitialised memory")) goto kill;
            }
            if (c.e)
            {
                E def = mkConst(1, 1);
                std::map<uint32_t, E> byTarget;   // edge index -> condition
                for (size_t i = 0; i < in.cases.size(); i++)
                {
                    E x = mkOp(O_EQ, 1, c.e, mkConst(in.cases[i], in.w2));
                    def = mkOp(O_AND, 1, def, mkNot(x));
                    bool merged = false;
                    for (auto &bt : byTarget) if (in.edges[bt.first].pc == in.edges[i + 1].pc && in.edges[bt.first].copies.empty()) { bt.second = mkOp(O_OR, 1, bt.second, x); merged = true; break; }
                    if (!merged) byTarget[i + 1] = x;
                }
                byTarget[0] = def;
                std::vector<std::pair<uint32_t, std::pair<E, Model>>> ok;
                for (auto &bt : byTarget)
                {
                    Model m = st.model;
                    SR r = feasible(st, bt.second, m);
                    if (r == S_UNKNOWN) incompl("solver gave up on a switch");
                    if (r == S_SAT) ok.push_back({bt.first, {bt.second, m}});
                }
                if (ok.empty()) goto kill;
                if (ok.size() > 1) profFork(st, 5);
                for (size_t i = 1; i < ok.size(); i++)
                {
                    State *n = cloneState(st);
                    addCons(*n, ok[i].second.first);
                    takeModel(*n, ok[i].second.second, ok[i].second.first);
                    takeEdge(*n, in.edges[ok[i].first]);
                    work.push_back(n);
                }
                addCons(st, ok[0].second.first);
                takeModel(st, ok[0].second.second, ok[0].second.first);
                takeEdge(st, in.edges[ok[0].first]);
                break;
            }
            size_t i = 0;
            for (; i < in.cases.size(); i++) if (in.cases[i] == c.c) break;
            takeEdge(st, in.edges[i < in.cases.size() ? i + 1 : 0]);
            break;
        }
        case K_SELECT:
        {
            Val c = resolve(st, get(st, in.ops[0]));
            if (c.e && !c.e->uninit)
            {
                // "undef" chosen on one side must not leak into the other: follow both sides instead
                bool un = false;
                for (unsigned i = 0; i < in.nd && !un; i++)
                {
                    const Val &x = get(st, in.ops[1], i), &y = get(st, in.ops[2], i);
                    un = (x.e && x.e->uninit) != (y.e && y.e->uninit);
                }
                if (un)
                {
                    State *o;
                    int r = decide(st, c, &o);
                    if (r < 0) goto kill;
                    if (o)
                    {
                        for (unsigned i = 0; i < in.nd; i++) o->reg(in.dst + i) = get(*o, in.ops[2], i);
                        o->fr.back().pc++;
                        work.push_back(o);
                    }
                    c = Val((uint64_t)r);
                }
            }
            for (unsigned i = 0; i < in.nd; i++)
            {
                if (!c.e) st.reg(in.dst + i) = get(st, in.ops[c.c & 1 ? 1 : 2], i);
                else st.reg(in.dst + i) = Val(mkIte(c.e, asE(get(st, in.ops[1], i), in.leaves[i].w), asE(get(st, in.ops[2], i), in.leaves[i].w)));
            }
            f.pc++;
            break;
        }
        case K_COPY: for (unsigned i = 0; i < in.nd; i++) st.reg(in.dst + i) = get(st, in.ops[0], i); f.pc++; break;
        case K_EXTRACTV: for (unsigned i = 0; i < in.nd; i++) st.reg(in.dst + i) = get(st, in.ops[0], in.off + i); f.pc++; break;
        case K_INSERTV:
            for (unsigned i = 0; i < in.nd; i++) st.reg(in.dst + i) = get(st, in.ops[0], i);
            for (unsigned i = 0; i < in.ops[1].n; i++) st.reg(in.dst + in.off + i) = get(st, in.ops[1], i);
            f.pc++;
            break;
        case K_UNREACHABLE: finding(st, "unreachable", "undefined behaviour reached", st.model); goto kill;
        case K_RET:
        {
            static std::vector<Val> rv;
            rv.clear();
            if (!in.ops.empty()) for (unsigned i = 0; i < in.ops[0].n; i++) rv.push_back(get(st, in.ops[0], i));
            popStack(st, f.stackMark);
            int32_t dst = f.retDst;
            st.regs.resize(f.base);
            st.fr.pop_back();
            if (st.fr.empty()) { endPath(st, "return"); delete sp; return; }
            if (dst >= 0) for (unsigned i = 0; i < rv.size(); i++) st.reg(dst + i) = rv[i];
            st.fr.back().pc++;
            break;
        }
        case K_CALL:
        {
            Func *F = in.callee;
            Native nat = in.native;
            std::string const *nm = &in.nname;
            size_t nargs = in.argw.size();
            if (!F && !nat && in.ops.size() > nargs)
            {
                uint64_t a;
                NR r = concretize(st, get(st, in.ops[nargs]), a);
                if (r != N_OK) goto kill;
                uint64_t i = (a - FN_BASE) >> 4;
                if (a < FN_BASE || i >= funcByIdx.size()) { finding(st, "memory", a == 0 ? "call through a null function pointer" : "call through a wild function pointer", st.model); goto kill; }
                F = funcByIdx[i];
                nm = &F->name;
                nat = F->native;
                if (F->f->isDeclaration()) F = nullptr;
            }
            if (nat)
            {
                static std::vector<Val> args, ret;
                args.clear();
                ret.clear();
                for (size_t i = 0; i < nargs; i++) for (unsigned j = 0; j < in.ops[i].n; j++) args.push_back(get(st, in.ops[i], j));
                NR r = nat(st, in, args, ret);
                if (r == N_KILL) goto kill;
                if (r == N_RESTART) break;
                if (r == N_OK)
                {
                    if (in.dst >= 0) for (unsigned i = 0; i < in.nd && i < ret.size(); i++) st.reg(in.dst + i) = ret[i];
                    st.fr.back().pc++;
                    break;
                }
            }
            if (!F) { incompl("call of an unmodelled function " + *nm); goto kill; }
            std::vector<std::vector<Val>> args(nargs);
            for (size_t i = 0; i < nargs; i++) for (unsigned j = 0; j < in.ops[i].n; j++) args[i].push_back(get(st, in.ops[i], j));
            if (!enterFunc(st, F, &in, args, in.dst)) goto kill;
            break;
        }
        }
        continue;
    kill:
        stats.killed++;
        delete sp;
        return;
    }
}

static void initGlobals(State &st)
{
    for (GlobalVariable &G : M->globals())
    {
        uint64_t size = DL->getTypeAllocSize(G.getValueType());
        Obj *o = allocObj(st, st.heap, size, OB_GLOBAL, true);
        o->gname = strdup(G.getName().str().c_str());
        globalAddr[&G] = o->base;
        if (G.isDeclaration()) fatal("undefined global " + G.getName().str());
    }
    std::function<void(Obj *, uint64_t, const Constant *)> init = [&](Obj *o, uint64_t off, const Constant *C) {
        Type *T = C->getType();
        if (isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C) || isa<UndefValue>(C)) return;
        if (auto *D = dyn_cast<ConstantDataSequential>(C))
        {
            uint64_t es = DL->getTypeAllocSize(D->getElementType());
            for (unsigned i = 0; i < D->getNumElements(); i++) writeObj(o, off + i * es, es, Decoder::constVal(D->getElementAsConstant(i)));
            return;
        }
        if (auto *S = dyn_cast<StructType>(T)) { for (unsigned i = 0; i < S->getNumElements(); i++) init(o, off + DL->getStructLayout(S)->getElementOffset(i), C->getAggregateElement(i)); return; }
        if (auto *A = dyn_cast<ArrayType>(T)) { uint64_t es = DL->getTypeAllocSize(A->getElementType()); for (unsigned i = 0; i < A->getNumElements(); i++) init(o, off + i * es, C->getAggregateElement(i)); return; }
        writeObj(o, off, DL->getTypeStoreSize(T), Decoder::constVal(C));
    };
    for (GlobalVariable &G : M->globals())
    {
        Space *sp; uint32_t idx;
        Obj *o = findObj(st, globalAddr[&G], sp, idx);
        init(o, 0, G.getInitializer());
        if (G.isConstant()) o->kind = OB_CONST;
    }
}

static std::vector<pid_t> kids;
static void resetForChild()
{
    memset(&stats, 0, sizeof stats);
    solverStats = SolverStats();
    incompleteWhy.clear(); reached.clear(); assertStats.clear(); samples.clear(); findingSeen.clear(); forkProf.clear();
    for (Func *f : funcByIdx) f->execs = 0;
    kids.clear();
    outF = nullptr;
    rng.seed(opt.seed * 7919 + getpid());
}
static size_t rssMB()
{
    FILE *f = fopen("/proc/self/statm", "r");
    unsigned long a = 0, b = 0;
    if (f) { if (fscanf(f, "%lu %lu", &a, &b) != 2) b = 0; fclose(f); }
    return b * 4096 / 1048576;
}
static void explore()
{
    uint64_t it = 0;
    while (!work.empty())
    {
        if (sh->stop) { incompl("stopped after enough findings"); break; }
        if (now() > opt.maxTime) { incompl("time budget used up"); break; }
        if ((++it & 255) == 0 && rssMB() > opt.maxRss) { incompl("memory budget used up"); break; }
        while (work.size() >= 2 && shouldSplit())
        {
            int a = sh->active.load();
            if (a >= opt.jobs || !sh->active.compare_exchange_strong(a, a + 1)) continue;
            fflush(nullptr);
            pid_t p = fork();
            if (p < 0) { sh->active--; break; }
            std::deque<State *> mine;
            for (size_t i = 0; i < work.size(); i++)
            {
                bool forChild = (i % 2) == 0;
                if (forChild == (p == 0)) mine.push_back(work[i]);
            }
            work = mine;     // the other half belongs to the other process (its memory stays shared copy-on-write)
            if (p == 0) { resetForChild(); sh->procs++; }
            else kids.push_back(p);
        }
        State *s = work.back();
        work.pop_back();
        runState(s);
    }
    stats.incomplete += work.size();
}
static void report()
{
    FILE *o = outFile();
    for (auto &s : samples) fprintf(o, "%s\n", s.c_str());
    fprintf(o, "{\"t\":\"stats\",\"paths\":%llu,\"killed\":%llu,\"forks\":%llu,\"insts\":%llu,\"branches\":%llu,\"symBranches\":%llu,\"asserts\":%llu,\"assertsSolver\":%llu,\"findings\":%llu,\"incomplete\":%llu,\"domHits\":%llu,\"modelHits\":%llu,"
        "\"realQ\":%llu,\"realUnknown\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cacheHits\":%llu,\"solverSecs\":%.3f,\"maxSecs\":%.3f,\"remaining\":%zu,\"why\":[",
        (unsigned long long)stats.paths, (unsigned long long)stats.killed, (unsigned long long)stats.forks, (unsigned long long)stats.insts, (unsigned long long)stats.branches, (unsigned long long)stats.symBranches,
        (unsigned long long)stats.asserts, (unsigned long long)stats.assertsSolver, (unsigned long long)stats.findings, (unsigned long long)stats.incomplete, (unsigned long long)stats.domHits, (unsigned long long)stats.modelHits,
        (unsigned long long)stats.realQ, (unsigned long long)stats.realUnknown, (unsigned long long)solverStats.queries, (unsigned long long)solverStats.sat, (unsigned long long)solverStats.unsat, (unsigned long long)solverStats.unknown,
        (unsigned long long)solverStats.cacheHits, solverStats.secs, solverStats.maxSecs, work.size());
    for (size_t i = 0; i < incompleteWhy.size(); i++) fprintf(o, "%s%s", i ? "," : "", jstr(incompleteWhy[i]).c_str());
    fprintf(o, "],\"reached\":{");
    bool first = true;
    for (auto &r : reached) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(o, "},\"assertsBy\":{");
    first = true;
    for (auto &r : assertStats) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(r.first).c_str(), (unsigned long long)r.second); first = false; }
    fprintf(o, "},\"funcs\":{");
    first = true;
    for (Func *f : funcByIdx) if (f->execs) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(f->name).c_str(), (unsigned long long)f->execs); first = false; }
    fprintf(o, "}}\n");
    if (opt.profile)
    {
        std::vector<std::pair<uint64_t, std::string>> v;
        for (auto &p : forkProf) v.push_back({p.second, p.first.first->fn->name + ":" + std::to_string(p.first.first->line) + " kind " + std::to_string(p.first.second)});
        std::sort(v.rbegin(), v.rend());
        for (size_t i = 0; i < v.size() && i < 25; i++) fprintf(stderr, "  forks %8llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str());
    }
    fflush(o);
}

int main(int argc, char **argv)
{
    struct rlimit rl;
    getrlimit(RLIMIT_STACK, &rl);
    if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 30) && !getenv("SYMX_REEXEC"))
    {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : std::min<rlim_t>(rl.rlim_max, 1ull << 30);
        setrlimit(RLIMIT_STACK, &rl);
        setenv("SYMX_REEXEC", "1", 1);
        execv("/proc/self/exe", argv);
    }
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--entry") opt.entry = nx();
        else if (a == "--out") opt.out = nx();
        else if (a == "-j") opt.jobs = stoi(nx());
        else if (a == "--max-time") opt.maxTime = stod(nx());
        else if (a == "--max-inst") opt.maxInst = stoull(nx());
        else if (a == "--rlimit") opt.rlimit = stoul(nx());
        else if (a == "--max-findings") opt.maxFindings = stoi(nx());
        else if (a == "--seed") opt.seed = stoull(nx());
        else if (a == "--samples") opt.samples = stoi(nx());
        else if (a == "--max-rss") opt.maxRss = stoull(nx());
        else if (a == "-v") opt.verbose = true;
        else if (a == "--profile") opt.profile = true;
        else opt.bc = a;
    }
    T0 = std::chrono::steady_clock::now();
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    new (sh) Shared();
    sh->active = 1; sh->stop = 0; sh->findings = 0; sh->paths = 0; sh->procs = 1; sh->crashed = 0;
    rng.seed(opt.seed);
    LLVMContext C;
    SMDiagnostic err;
    std::unique_ptr<Module> mod = parseIRFile(opt.bc, err, C);
    if (!mod) { err.print("symx", errs()); return 3; }
    M = mod.get();
    DL = &M->getDataLayout();
    registerNatives();
    for (Function &F : *M)
    {
        Func *f = new Func();
        f->name = F.getName().str();
        f->f = &F;
        f->addr = FN_BASE + (funcByIdx.size() << 4);
        f->isVar = F.isVarArg();
        f->native = findNative(f->name);
        funcs[&F] = f;
        funcByIdx.push_back(f);
    }
    State *st = new State();
    initGlobals(*st);
    Function *entry = M->getFunction(opt.entry);
    if (!entry || entry->isDeclaration()) fatal("no entry " + opt.entry);
    if (!enterFunc(*st, funcs[entry], nullptr, {}, -1)) fatal("cannot enter");
    work.push_back(st);
    pid_t root = getpid();
    explore();
    sh->active--;
    report();
    fflush(nullptr);
    for (pid_t k : kids)
    {
        int ws;
        if (waitpid(k, &ws, 0) == k && !(WIFEXITED(ws) && WEXITSTATUS(ws) == 0)) { sh->crashed++; fprintf(stderr, "symx: worker %d ended abnormally (status %x)\n", k, ws); if (WIFSIGNALED(ws)) sh->active--; }
    }
    int rc = 0;
    if (getpid() == root)
    {
        FILE *f = fopen((opt.out + "/summary.json").c_str(), "w");
        fprintf(f, "{\"procs\":%d,\"crashed\":%d,\"findings\":%d,\"stopped\":%d,\"wall\":%.2f}\n", sh->procs.load(), sh->crashed.load(), sh->findings.load(), sh->stop.load(), now());
        fclose(f);
        rc = sh->crashed ? 3 : 0;
    }
    fflush(nullptr);
    _exit(rc);
}
