// Functions the executor implements itself (included by symx.cpp).
static bool readStr(State &st, uint64_t a, std::string &out, bool report = true)
{
    Space *sp; uint32_t idx;
    Obj *o = findObj(st, a, sp, idx);
    if (!o || o == TOMB || a < o->base || a >= o->base + o->size) { if (report) finding(st, "memory", classify(st, a, 1, false), st.model); return false; }
    out.clear();
    for (uint64_t i = a - o->base; i < o->size; i++)
    {
        if (o->s[i]) return false;
        if (!o->d[i]) return true;
        out += (char)o->d[i];
    }
    return false;
}
static std::string needStr(State &st, const Val &v)
{
    std::string s;
    Val r = resolve(st, v);
    if (r.e || !readStr(st, r.c, s, false)) fatal("harness: string argument is not concrete");
    return s;
}
static uint32_t newInput(State &st, const std::string &name, unsigned w, char kind)
{
    uint32_t i = st.inputs.size();
    st.inputs.push_back({name, (uint8_t)w, kind});
    Dom d = {{~0ull, ~0ull, ~0ull, ~0ull}};
    if (w < 8) for (unsigned v = 1u << w; v < 256; v++) d.w[v >> 6] &= ~(1ull << (v & 63));
    st.dom.push_back(d);
    st.entangled.push_back(0);
    st.fixedv.push_back(0);
    st.model.set(i, 0);
    return i;
}
static NR n_byte(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint32_t i = newInput(st, needStr(st, a[0]), 8, 'b');
    E e = mkSym(i, 8);
    r.push_back(Val(in.w > 8 ? mkOp(O_ZEXT, in.w, e) : e));
    return N_OK;
}
template <int W, char K> static NR n_wide(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint32_t i = newInput(st, needStr(st, a[0]), W, K);
    r.push_back(Val(mkSym(i, W)));
    return N_OK;
}
static NR n_range(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t lo = a[1].c, hi = a[2].c;
    if (a[1].e || a[2].e || hi < lo || hi > 255) fatal("symx_range: bad bounds");
    uint32_t i = newInput(st, needStr(st, a[0]), 8, 'r');
    Dom d = {{0, 0, 0, 0}};
    for (uint64_t v = lo; v <= hi; v++) d.w[v >> 6] |= 1ull << (v & 63);
    st.dom[i] = d;
    st.model.set(i, lo);
    if (lo == hi) st.fixedv[i] = 1;
    r.push_back(lo == hi ? Val(lo) : Val(mkOp(O_ZEXT, 32, mkSym(i, 8))));
    return N_OK;
}
static NR n_choose(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    Val nv = resolve(st, a[1]);
    if (nv.e) fatal("symx_choose: symbolic count");
    uint64_t n = nv.c;
    if (n == 0) return N_KILL;
    if (n > 256) fatal("symx_choose: more than 256 choices");
    uint32_t i = newInput(st, needStr(st, a[0]), 8, 'r');
    for (uint64_t v = 0; v < n; v++)
    {
        State *t = v == n - 1 ? &st : cloneState(st);
        Dom d = {{0, 0, 0, 0}};
        d.w[v >> 6] |= 1ull << (v & 63);
        t->dom[i] = d;
        t->fixedv[i] = 1;
        t->model.set(i, v);
        if (t != &st)
        {
            if (in.dst >= 0) t->reg(in.dst) = Val(v);
            t->fr.back().pc++;
            work.push_back(t);
        }
    }
    if (n > 1) profFork(st, 6);
    r.push_back(Val(n - 1));
    return N_OK;
}
static NR n_assume(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    Val v = resolve(st, a[0]);
    if (!v.e) return v.c ? N_OK : N_KILL;
    E c = v.e->w == 1 ? v.e : mkNot(mkOp(O_EQ, 1, v.e, mkConst(0, v.e->w)));
    Model m = st.model;
    SR r = feasible(st, c, m);
    if (r == S_UNKNOWN) incompl("solver gave up on an assumption");
    if (r != S_SAT) return N_KILL;
    addCons(st, c);
    takeModel(st, m, c);
    return N_OK;
}
static NR assertE(State &st, const Val &v0, const std::string &kind, const std::string &msg)
{
    stats.asserts++;
    assertStats[msg]++;
    Val v = resolve(st, v0);
    if (!v.e)
    {
        if (v.c) return N_OK;
        finding(st, kind, msg, st.model);
        return N_KILL;
    }
    if (v.e->uninit)
    {
        if (!purgeUninit(st, v, "assertion on uninitialised memory: " + msg)) return N_KILL;
        if (!v.e) return assertE(st, v, kind, msg);
    }
    stats.assertsSolver++;
    E c = v.e->w == 1 ? v.e : mkNot(mkOp(O_EQ, 1, v.e, mkConst(0, v.e->w)));
    E nc = mkNot(c);
    Model m = st.model;
    SR r = feasible(st, nc, m);
    if (r == S_UNKNOWN) { incompl("solver gave up on assertion: " + msg); }
    if (r == S_SAT)
    {
        State t(st);
        takeModel(t, m, nc);
        t.fr = st.fr;
        finding(t, kind, msg, m);
        Model m2 = st.model;
        if (feasible(st, c, m2) != S_SAT) return N_KILL;
        addCons(st, c);
        takeModel(st, m2, c);
    }
    return N_OK;
}
static NR n_assert(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &) { return assertE(st, a[0], "assert", needStr(st, a[1])); }
static NR n_fail(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    stats.asserts++;
    finding(st, "assert", needStr(st, a[0]), st.model);
    return N_KILL;
}
static NR n_cassert(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    finding(st, "abort", "assertion in the code failed: " + needStr(st, a[0]), st.model);
    return N_KILL;
}
static NR n_abort(State &st, const Inst &, std::vector<Val> &, std::vector<Val> &) { finding(st, "abort", "abort called", st.model); return N_KILL; }
static NR n_discard(State &, const Inst &, std::vector<Val> &, std::vector<Val> &) { return N_KILL; }
static NR n_reach(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &) { reached[needStr(st, a[0])]++; return N_OK; }
static NR n_observe(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    if (!(a[0].e && (a[0].e->uninit || a[0].e->real))) st.obs.push_back({a[0], 64});
    return N_OK;
}
static NR n_observed(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    if (!(a[0].e && (a[0].e->uninit || a[0].e->real))) st.obs.push_back({a[0], 65});
    return N_OK;
}
static NR n_concretize(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t v;
    NR x = concretize(st, a[0], v);
    r.push_back(Val(v));
    return x;
}
static NR n_issym(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r) { r.push_back(Val((uint64_t)(resolve(st, a[0]).e != nullptr))); return N_OK; }
static NR n_live(State &st, const Inst &, std::vector<Val> &, std::vector<Val> &r) { r.push_back(Val((uint64_t)st.liveHeap)); return N_OK; }
static NR n_budget(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &) { st.instBudget = a[0].c ? st.ninst + a[0].c : 0; return N_OK; }
static NR n_exitok(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &) { st.exitOk = a[0].c; return N_OK; }
static NR n_exit(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    if (!st.exitOk) { finding(st, "exit", "the program ended itself", st.model); return N_KILL; }
    endPath(st, "exit");
    return N_KILL;
}
static NR n_dump(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    std::string s;
    Val v = resolve(st, a[0]);
    if (!v.e && readStr(st, v.c, s, false)) fprintf(stderr, "symx: %s\n", s.c_str());
    else if (v.e) fprintf(stderr, "symx: %s\n", exprStr(v.e).c_str());
    else
    {
        Space *sp; uint32_t idx; Obj *o = findObj(st, v.c, sp, idx);
        fprintf(stderr, "symx: \"");
        if (o && o != TOMB && v.c >= o->base) for (uint64_t i = v.c - o->base; i < o->size; i++) { if (o->s[i] == 0) { if (!o->d[i]) break; fputc(o->d[i], stderr); } else if (o->s[i] == 1) fputc('?', stderr); else { fprintf(stderr, "<%s>", exprStr(o->sym[i], 3).c_str()); } }
        fprintf(stderr, "\"\n");
    }
    return N_OK;
}

// ------------------------------------------------------------ heap
static NR n_malloc(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t n;
    NR x = concretize(st, a[0], n);
    if (x != N_OK) return x;
    if (n > (1u << 26)) { finding(st, "alloc", "allocation of an absurd size", st.model); return N_KILL; }
    Obj *o = allocObj(st, st.heap, n, OB_HEAP, false);
    st.liveHeap++;
    r.push_back(Val(o->base));
    return N_OK;
}
static NR n_calloc(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t n, m;
    NR x = concretize(st, a[0], n);
    if (x != N_OK) return x;
    x = concretize(st, a[1], m);
    if (x != N_OK) return x;
    if (n > (1u << 26) || m > (1u << 26) || n * m > (1u << 26)) { finding(st, "alloc", "allocation of an absurd size", st.model); return N_KILL; }
    Obj *o = allocObj(st, st.heap, n * m, OB_HEAP, true);
    st.liveHeap++;
    r.push_back(Val(o->base));
    return N_OK;
}
static NR freeAt(State &st, uint64_t p)
{
    if (!p) return N_OK;
    Space *sp; uint32_t idx;
    Obj *o = findObj(st, p, sp, idx);
    if (o == TOMB) { finding(st, "memory", "double free", st.model); return N_KILL; }
    if (!o || o->kind != OB_HEAP || o->base != p) { finding(st, "memory", "free of a pointer that was not allocated", st.model); return N_KILL; }
    uint32_t nslots = (o->size + 2 * GAP + SLOT - 1) / SLOT;
    for (uint32_t i = 0; i < nslots; i++) st.heap.put(idx + i, TOMB);
    st.liveHeap--;
    return N_OK;
}
static NR n_free(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    uint64_t p;
    NR x = concretize(st, a[0], p);
    if (x != N_OK) return x;
    return freeAt(st, p);
}
static NR n_realloc(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t p, n;
    NR x = concretize(st, a[0], p);
    if (x != N_OK) return x;
    x = concretize(st, a[1], n);
    if (x != N_OK) return x;
    if (n > (1u << 26)) { finding(st, "alloc", "allocation of an absurd size", st.model); return N_KILL; }
    Obj *src = nullptr;
    if (p)
    {
        Space *sp; uint32_t idx;
        src = findObj(st, p, sp, idx);
        if (!src || src == TOMB || src->kind != OB_HEAP || src->base != p) { finding(st, "memory", "realloc of a pointer that was not allocated", st.model); return N_KILL; }
    }
    Obj *o = allocObj(st, st.heap, n, OB_HEAP, false);
    st.liveHeap++;
    if (src) { copyBytes(o, 0, src, 0, std::min<uint64_t>(src->size, n)); x = freeAt(st, p); if (x != N_OK) return x; }
    r.push_back(Val(o->base));
    return N_OK;
}
static NR memRange(State &st, uint64_t a, uint64_t n, bool write, Obj *&o, Space *&sp, uint32_t &idx)
{
    o = findObj(st, a, sp, idx);
    if (o && o != TOMB && a >= o->base && a + n <= o->base + o->size && !(write && o->kind == OB_CONST)) return N_OK;
    finding(st, "memory", classify(st, a, n, write), st.model);
    return N_KILL;
}
template <bool MOVE> static NR n_memcpy(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t d, s, n;
    NR x = concretize(st, a[2], n, 300); if (x != N_OK) return x;
    x = concretize(st, a[0], d); if (x != N_OK) return x;
    x = concretize(st, a[1], s); if (x != N_OK) return x;
    r.push_back(Val(d));
    if (n == 0) return N_OK;
    Obj *od, *os; Space *sd, *ss; uint32_t id, is;
    x = memRange(st, s, n, false, os, ss, is); if (x != N_OK) return x;
    x = memRange(st, d, n, true, od, sd, id); if (x != N_OK) return x;
    if (!MOVE && os == od && s != d && s < d + n && d < s + n) { finding(st, "memory", "memcpy between overlapping ranges", st.model); return N_KILL; }
    bool same = os == od;
    od = writable(st, *sd, id, od);
    if (same) os = od; else os = findObj(st, s, ss, is);
    copyBytes(od, d - od->base, os, s - os->base, n);
    return N_OK;
}
static NR n_memset(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t d, n;
    NR x = concretize(st, a[2], n, 300); if (x != N_OK) return x;
    x = concretize(st, a[0], d); if (x != N_OK) return x;
    r.push_back(Val(d));
    if (n == 0) return N_OK;
    Obj *od; Space *sd; uint32_t id;
    x = memRange(st, d, n, true, od, sd, id); if (x != N_OK) return x;
    od = writable(st, *sd, id, od);
    Val v = a[1].e ? Val(mkExtract(a[1].e, 0, 8)) : Val(a[1].c & 255);
    if (!v.e) { memset(od->d + (d - od->base), v.c, n); if (od->nonconc) memset(od->s + (d - od->base), 0, n); }
    else for (uint64_t i = 0; i < n; i++) writeObj(od, d - od->base + i, 1, v);
    return N_OK;
}
// fast paths on concrete strings; everything else runs the C model in minilibc
static NR n_strlen(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    std::string s;
    if (a[0].e || !readStr(st, a[0].c, s, false)) return N_ENTER;
    r.push_back(Val((uint64_t)s.size()));
    return N_OK;
}
static NR n_strcmp(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    std::string s, t;
    if (a[0].e || a[1].e || !readStr(st, a[0].c, s, false) || !readStr(st, a[1].c, t, false)) return N_ENTER;
    int c = strcmp(s.c_str(), t.c_str());
    r.push_back(Val((uint64_t)(uint32_t)(c < 0 ? -1 : c > 0)));
    return N_OK;
}
static NR n_strncmp(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    std::string s, t;
    if (a[0].e || a[1].e || a[2].e || !readStr(st, a[0].c, s, false) || !readStr(st, a[1].c, t, false)) return N_ENTER;
    int c = strncmp(s.c_str(), t.c_str(), a[2].c);
    r.push_back(Val((uint64_t)(uint32_t)(c < 0 ? -1 : c > 0)));
    return N_OK;
}

// ------------------------------------------------------------ doubles
template <Op O> static NR n_fop(State &, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    r.push_back(a[0].e ? Val(mkOp(O, 64, a[0].e)) : Val(foldOp(O, 64, 64, a[0].c, 0, 0, 0)));
    return N_OK;
}
static NR n_uf(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    Val x = resolve(st, a[0]), y = a.size() > 1 ? resolve(st, a[1]) : Val();
    if (a.size() > 1) r.push_back(Val(mkUF(in.nname, 64, asE(x, 64), asE(y, 64))));
    else r.push_back(Val(mkUF(in.nname, 64, asE(x, 64))));
    return N_OK;
}
// symx_fmt_double(char *buf, size_t cap, const char *fmt, double v)
static NR n_fmtdouble(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    std::string fmt = needStr(st, a[2]);
    Val v = resolve(st, a[3]);
    char buf[512];
    int n;
    if (v.e)
    {
        if (!st.opaqueD) { incompl("a symbolic number is printed"); return N_KILL; }
        strcpy(buf, "1.5");     // stand-in text; harnesses that allow this do not look at it
        n = 3;
    }
    else n = snprintf(buf, sizeof buf, fmt.c_str(), bits2d(v.c));
    if (n >= (int)sizeof buf) n = sizeof buf - 1;
    Space *sp; uint32_t idx; Obj *o;
    NR x = memRange(st, a[0].c, n + 1, true, o, sp, idx);
    if (x != N_OK) return x;
    o = writable(st, *sp, idx, o);
    for (int i = 0; i <= n; i++) writeObj(o, a[0].c - o->base + i, 1, Val((uint64_t)(uint8_t)buf[i]));
    r.push_back(Val((uint64_t)n));
    return N_OK;
}
static NR n_opaque(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &) { st.opaqueD = a[0].c; return N_OK; }
// strtod on a string whose bytes get concretised (up to the first one that cannot belong to a number)
static NR n_strtod(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t p, ep;
    NR x = concretize(st, a[0], p); if (x != N_OK) return x;
    x = concretize(st, a[1], ep); if (x != N_OK) return x;
    std::string s;
    for (uint64_t i = 0;; i++)
    {
        Space *sp; uint32_t idx;
        Obj *o = access(st, p + i, 1, false, sp, idx);
        if (!o) return N_KILL;
        Val b = resolve(st, readObj(st, o, p + i - o->base, 1));
        if (b.e)
        {
            if (b.e->uninit) { finding(st, "uninit", "number text is uninitialised", st.model); return N_KILL; }
            // split off the bytes that end a number; characters that can be part of one are enumerated
            E e = b.e;
            E num = mkConst(0, 1);
            const char *set = "0123456789.eE+-xXpPabcdfABCDFinNIyYtTsSqQ \t\n\v\f\r()_";
            for (const char *q = set; *q; q++) num = mkOp(O_OR, 1, num, mkOp(O_EQ, 1, e, mkConst((uint8_t)*q, 8)));
            State *other;
            int d = decide(st, Val(num), &other);
            if (d < 0) return N_KILL;
            if (other) work.push_back(other);
            if (d == 0) { s += '\x01'; break; }
            uint64_t c;
            x = concretize(st, Val(e), c);
            if (x != N_OK) return x;
            b = Val(c);
        }
        if (!b.c) break;
        s += (char)b.c;
        char *e2; strtod(s.c_str(), &e2);
        if ((size_t)(e2 - s.c_str()) + 12 < s.size()) break;
    }
    char *end;
    double v = strtod(s.c_str(), &end);
    if (ep)
    {
        NR y = doStore(st, Val(ep), 8, Val(p + (end - s.c_str())));
        if (y != N_OK) return y;
    }
    r.push_back(Val(d2bits(v)));
    return N_OK;
}

// ------------------------------------------------------------ reals (64-bit handles)
static NR n_rvar(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    uint32_t i = newInput(st, needStr(st, a[0]), 64, 'R');
    st.model.set(i, d2bits(1.0 + 0.37 * i));
    E t = mkOp(O_RVAR, 64, nullptr, nullptr, nullptr, i);
    r.push_back(Val(t));
    return N_OK;
}
static E asReal(State &st, const Val &v) { return v.e && v.e->real ? v.e : mkOp(O_RCONST, 64, nullptr, nullptr, nullptr, v.c); }
static NR n_rconst(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    Val v = resolve(st, a[0]);
    if (v.e) fatal("symx_rconst of a symbolic double");
    r.push_back(Val(mkOp(O_RCONST, 64, nullptr, nullptr, nullptr, v.c)));
    return N_OK;
}
static bool rc(E e, double &d) { if (e->op != O_RCONST) return false; d = bits2d(e->k); return true; }
static E rconst(double d) { return mkOp(O_RCONST, 64, nullptr, nullptr, nullptr, d2bits(d)); }
template <Op O> static NR n_rop(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    E x = asReal(st, a[0]), y = asReal(st, a[1]);
    double p, q;
    if (O == O_RADD && rc(x, p) && p == 0) { r.push_back(Val(y)); return N_OK; }
    if (O == O_RADD && rc(y, p) && p == 0) { r.push_back(Val(x)); return N_OK; }
    if (O == O_RMUL && rc(x, p) && p == 1) { r.push_back(Val(y)); return N_OK; }
    if (O == O_RMUL && rc(y, p) && p == 1) { r.push_back(Val(x)); return N_OK; }
    if (rc(x, p) && rc(y, q) && p == nearbyint(p) && q == nearbyint(q) && fabs(p) < 1e9 && fabs(q) < 1e9 && (O == O_RADD || O == O_RMUL))
    { r.push_back(Val(rconst(O == O_RADD ? p + q : p * q))); return N_OK; }
    if (O == O_RDIV && x == y) { r.push_back(Val(rconst(1))); return N_OK; }    // the divisor is known to be nonzero
    if (O == O_RDIV && rc(y, p) && p == 1) { r.push_back(Val(x)); return N_OK; }
    if ((O == O_RMIN || O == O_RMAX) && x == y) { r.push_back(Val(x)); return N_OK; }
    if ((O == O_RADD || O == O_RMUL || O == O_RMIN || O == O_RMAX) && x->id > y->id) std::swap(x, y);
    r.push_back(Val(mkOp(O, 64, x, y)));
    return N_OK;
}
static NR n_ruf(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    std::string nm = needStr(st, a[0]);
    r.push_back(Val(mkOp(O_RUF, 64, asReal(st, a[1]), nullptr, nullptr, ufId(nm))));
    return N_OK;
}
static NR n_rsame(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r) { r.push_back(Val((uint64_t)(asReal(st, a[0]) == asReal(st, a[1])))); return N_OK; }
static NR n_rassume(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    // a[0] < a[1]
    st.realAssume.push_back(mkOp(O_RLT, 1, asReal(st, a[0]), asReal(st, a[1])));
    return N_OK;
}
static NR n_rassumene(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    E x = asReal(st, a[0]), y = asReal(st, a[1]);
    if (x == y) return N_KILL;
    st.realAssume.push_back(mkOp(O_NOT, 1, mkOp(O_REQ, 1, x, y)));
    return N_OK;
}
// Proves that the relation holds under the assumptions. A counterexample of the solver may rely on values of
// atoms that the functions can not take, so it counts only if the relation fails at a point in doubles as well:
// the solver's point, or else one of some others. Returns 1 proved, 0 refuted (a finding), 2 undecided.
static bool holdsClearly(E c, const Model &m)
{
    if (!evalExpr(c, m)) return false;
    E rel = c->op == O_NOT ? c->a[0] : c;
    if (rel->op != O_REQ && rel->op != O_RLT) return true;
    if (rel->op == O_REQ && c == rel) return true;
    double p = bits2d(evalExpr(rel->a[0], m)), q = bits2d(evalExpr(rel->a[1], m));
    return fabs(p - q) > 1e-9 * (1 + fabs(p) + fabs(q));
}
template <int K> static NR n_rcheck(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &r)
{
    E x = asReal(st, a[0]), y = asReal(st, a[1]);
    std::string msg = needStr(st, a[2]);
    stats.asserts++;
    assertStats[msg]++;
    if (K == 0 && x == y) { r.push_back(Val((uint64_t)1)); return N_OK; }
    stats.realQ++;
    stats.assertsSolver++;
    E rel = K == 2 ? mkOp(O_RLT, 1, x, y) : mkOp(O_REQ, 1, x, y);
    E neg = K == 1 ? rel : mkOp(O_NOT, 1, rel);
    std::vector<E> cs = st.realAssume;
    cs.push_back(neg);
    std::set<uint32_t> syms;
    for (E c : cs) syms.insert(c->sup->begin(), c->sup->end());
    Model m = st.model;
    SR s = solveReal(cs, std::vector<uint32_t>(syms.begin(), syms.end()), m, opt.rlimit);
    uint64_t res = s == S_UNSAT ? 1 : 2;
    uint64_t seed = 12345;
    for (int t = s == S_SAT ? -1 : 0; res == 2 && t < 100; t++)
    {
        if (t >= 0)
            for (uint32_t v : syms)
            {
                seed = seed * 6364136223846793005ull + 1442695040888963407ull;
                m.set(v, d2bits(0.25 * (1 + (seed >> 33) % (t < 50 ? 16 : 40)) + (t % 2 ? 0.0625 * ((seed >> 45) % 4) : 0)));
            }
        bool in = true, mod = true;
        for (uint32_t v : syms) { double d = fabs(bits2d(m.get(v))); if (d > 1e3 || (d < 1e-3 && d != 0)) mod = false; }
        if (!mod) continue;
        for (E c : st.realAssume) if (!holdsClearly(c, m)) { in = false; break; }
        if (!in) continue;
        double p = bits2d(evalExpr(x, m)), q = bits2d(evalExpr(y, m));
        if (K == 0 && (std::isnan(p) || fabs(p) > 1e8)) continue;
        // not where rounding decides: the values must not depend on the last digits of the point
        bool stable = true;
        for (int w = -1; w <= 1; w += 2)
        {
            Model o = m;
            for (uint32_t v : syms) o.set(v, d2bits(bits2d(m.get(v)) * (1 + w * 1e-11)));
            double p2 = bits2d(evalExpr(x, o)), q2 = bits2d(evalExpr(y, o));
            if (K != 1 && (std::isnan(p) != std::isnan(p2) || std::isnan(q) != std::isnan(q2) || fabs(p - p2) > 1e-8 * (1 + fabs(p)) || fabs(q - q2) > 1e-8 * (1 + fabs(q)))) stable = false;
        }
        if (!stable) continue;
        bool bad = K == 0 ? !(fabs(p - q) <= 1e-6 * (fabs(p) + fabs(q)) + 1e-7) : K == 1 ? p == q : !(p < q + 1e-9 * (fabs(p) + fabs(q)));
        if (bad) res = 0;
    }
    if (res == 2) stats.realUnknown++;
    if (res == 0) finding(st, "real", msg, m);
    r.push_back(Val(res));
    return N_OK;
}

// ------------------------------------------------------------ intrinsics
static NR n_vastart(State &st, const Inst &, std::vector<Val> &a, std::vector<Val> &)
{
    uint64_t p;
    NR x = concretize(st, a[0], p); if (x != N_OK) return x;
    x = doStore(st, Val(p), 4, Val((uint64_t)48)); if (x != N_OK) return x;
    x = doStore(st, Val(p + 4), 4, Val((uint64_t)176)); if (x != N_OK) return x;
    x = doStore(st, Val(p + 8), 8, Val(st.fr.back().va)); if (x != N_OK) return x;
    return doStore(st, Val(p + 16), 8, Val((uint64_t)0));
}
static NR n_vacopy(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    std::vector<Val> b = {a[0], a[1], Val((uint64_t)24)};
    return n_memcpy<true>(st, in, b, r);
}
static NR n_nop(State &, const Inst &, std::vector<Val> &, std::vector<Val> &) { return N_OK; }
template <int P> static NR n_minmax(State &, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    unsigned w = in.w;
    E x = asE(a[0], w), y = asE(a[1], w);
    E lt = P < 2 ? mkOp(O_ULT, 1, x, y) : mkOp(O_SLT, 1, x, y);
    r.push_back(Val((P & 1) ? mkIte(lt, y, x) : mkIte(lt, x, y)));   // 0 umin 1 umax 2 smin 3 smax
    return N_OK;
}
static NR n_abs(State &, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    unsigned w = in.w;
    E x = asE(a[0], w);
    r.push_back(Val(mkIte(mkOp(O_SLT, 1, x, mkConst(0, w)), mkOp(O_SUB, w, mkConst(0, w), x), x)));
    return N_OK;
}
static NR n_usubsat(State &, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    unsigned w = in.w;
    E x = asE(a[0], w), y = asE(a[1], w);
    r.push_back(Val(mkIte(mkOp(O_ULT, 1, x, y), mkConst(0, w), mkOp(O_SUB, w, x, y))));
    return N_OK;
}
static NR n_expect(State &, const Inst &, std::vector<Val> &a, std::vector<Val> &r) { r.push_back(a[0]); return N_OK; }
static NR n_fcmpnan(State &, const Inst &, std::vector<Val> &a, std::vector<Val> &r) { r.push_back(fcmpVal(CmpInst::FCMP_UNO, a[0], a[0])); return N_OK; }
static NR n_isfpclass(State &st, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    uint64_t mask = a[1].c;
    E x = asE(a[0], 64), ax = mkOp(O_AND, 64, x, mkConst(0x7fffffffffffffffull, 64)), inf = mkConst(0x7ff0000000000000ull, 64);
    E neg = mkOp(O_SLT, 1, x, mkConst(0, 64));
    E res = mkConst(0, 1);
    E isnan = mkOp(O_ULT, 1, inf, ax), isinf = mkOp(O_EQ, 1, ax, inf), iszero = mkOp(O_EQ, 1, ax, mkConst(0, 64));
    E sub = mkOp(O_AND, 1, mkNot(iszero), mkOp(O_ULT, 1, ax, mkConst(0x0010000000000000ull, 64)));
    E norm = mkOp(O_AND, 1, mkNot(mkOp(O_ULT, 1, ax, mkConst(0x0010000000000000ull, 64))), mkOp(O_ULT, 1, ax, inf));
    auto add = [&](E c) { res = mkOp(O_OR, 1, res, c); };
    if (mask & 3) add(isnan);
    if (mask & 4) add(mkOp(O_AND, 1, isinf, neg));
    if (mask & 8) add(mkOp(O_AND, 1, norm, neg));
    if (mask & 16) add(mkOp(O_AND, 1, sub, neg));
    if (mask & 32) add(mkOp(O_AND, 1, iszero, neg));
    if (mask & 64) add(mkOp(O_AND, 1, iszero, mkNot(neg)));
    if (mask & 128) add(mkOp(O_AND, 1, sub, mkNot(neg)));
    if (mask & 256) add(mkOp(O_AND, 1, norm, mkNot(neg)));
    if (mask & 512) add(mkOp(O_AND, 1, isinf, mkNot(neg)));
    r.push_back(Val(res));
    return N_OK;
}
static NR n_trap(State &st, const Inst &, std::vector<Val> &, std::vector<Val> &) { finding(st, "abort", "trap", st.model); return N_KILL; }
template <Op O> static NR n_ovf(State &, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    unsigned w = in.argw[0];
    E x = asE(a[0], w), y = asE(a[1], w);
    E v = mkOp(O, w, x, y), o;
    if (O == O_ADD) o = mkOp(O_ULT, 1, v, x);
    else if (O == O_SUB) o = mkOp(O_ULT, 1, x, y);
    else
    {
        // unsigned multiplication overflows iff x != 0 && y > max / x
        if (x->op == O_CONST && y->op == O_CONST) { __uint128_t p = (__uint128_t)x->k * y->k; o = mkConst(p > maskw(w), 1); }
        else o = mkIte(mkOp(O_EQ, 1, x, mkConst(0, w)), mkConst(0, 1), mkOp(O_ULT, 1, mkOp(O_UDIV, w, mkConst(maskw(w), w), x), y));
    }
    r.push_back(Val(v));
    r.push_back(Val(o));
    return N_OK;
}
static NR n_fshl(State &, const Inst &in, std::vector<Val> &a, std::vector<Val> &r)
{
    unsigned w = in.w;
    if (a[2].e) fatal("fshl with symbolic amount");
    unsigned s = a[2].c % w;
    E x = asE(a[0], w), y = asE(a[1], w);
    r.push_back(s == 0 ? a[0] : Val(mkOp(O_OR, w, mkOp(O_SHL, w, x, mkConst(s, w)), mkOp(O_LSHR, w, y, mkConst(w - s, w)))));
    return N_OK;
}

static void registerNatives()
{
    auto &N = natives;
    N["symx_byte"] = n_byte;
    N["symx_u32"] = n_wide<32, 'u'>;
    N["symx_u64"] = n_wide<64, 'u'>;
    N["symx_double"] = n_wide<64, 'd'>;
    N["symx_range"] = n_range; N["symx_choose"] = n_choose;
    N["symx_assume"] = n_assume; N["symx_assert"] = n_assert; N["symx_fail"] = n_fail; N["symx_discard"] = n_discard;
    N["symx_reach"] = n_reach; N["symx_observe"] = n_observe; N["symx_observe_double"] = n_observed;
    N["symx_concretize"] = n_concretize; N["symx_is_symbolic"] = n_issym; N["symx_live_heap"] = n_live;
    N["symx_budget"] = n_budget; N["symx_exit_ok"] = n_exitok; N["symx_exit"] = n_exit; N["symx_dump"] = n_dump;
    N["symx_fmt_double"] = n_fmtdouble; N["symx_opaque_numbers"] = n_opaque; N["strtod"] = n_strtod;
    N["symx_rvar"] = n_rvar; N["symx_rconst"] = n_rconst; N["symx_radd"] = n_rop<O_RADD>; N["symx_rmul"] = n_rop<O_RMUL>; N["symx_rdiv"] = n_rop<O_RDIV>; N["symx_rpow"] = n_rop<O_RPOW>;
    N["symx_ruf"] = n_ruf; N["symx_rassume_lt"] = n_rassume; N["symx_rassume_ne"] = n_rassumene; N["symx_rcheck_eq"] = n_rcheck<0>; N["symx_rcheck_ne"] = n_rcheck<1>; N["symx_rcheck_lt"] = n_rcheck<2>; N["symx_rsame"] = n_rsame; N["symx_rmin"] = n_rop<O_RMIN>; N["symx_rmax"] = n_rop<O_RMAX>;
    N["__assert_fail"] = n_cassert; N["abort"] = n_abort;
    N["malloc"] = n_malloc; N["calloc"] = n_calloc; N["realloc"] = n_realloc; N["free"] = n_free;
    N["memcpy"] = n_memcpy<false>; N["memmove"] = n_memcpy<true>; N["memset"] = n_memset;
    N["llvm.memcpy"] = n_memcpy<true>; N["llvm.memmove"] = n_memcpy<true>; N["llvm.memset"] = n_memset;
    N["strlen"] = n_strlen; N["strcmp"] = n_strcmp; N["strncmp"] = n_strncmp;
    for (const char *p : {"fabs", "llvm.fabs"}) N[p] = n_fop<O_FABS>;
    for (const char *p : {"floor", "llvm.floor"}) N[p] = n_fop<O_FFLOOR>;
    for (const char *p : {"ceil", "llvm.ceil"}) N[p] = n_fop<O_FCEIL>;
    for (const char *p : {"trunc", "llvm.trunc"}) N[p] = n_fop<O_FTRUNC>;
    for (const char *p : {"round", "llvm.round"}) N[p] = n_fop<O_FROUND>;
    for (const char *p : {"sqrt", "llvm.sqrt"}) N[p] = n_fop<O_FSQRT>;
    for (const char *p : {"exp", "log", "log2", "log10", "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "tgamma", "lgamma",
                          "pow", "fmod", "atan2", "hypot", "cbrt", "exp2", "expm1", "log1p", "rint", "nearbyint", "remainder"}) N[p] = n_uf;
    N["llvm.va_start"] = n_vastart; N["llvm.va_copy"] = n_vacopy; N["llvm.va_end"] = n_nop;
    N["llvm.umin"] = n_minmax<0>; N["llvm.umax"] = n_minmax<1>; N["llvm.smin"] = n_minmax<2>; N["llvm.smax"] = n_minmax<3>;
    N["llvm.abs"] = n_abs; N["llvm.usub.sat"] = n_usubsat; N["llvm.expect"] = n_expect; N["llvm.trap"] = n_trap; N["llvm.is.fpclass"] = n_isfpclass;
    N["llvm.stacksave"] = n_nop; N["llvm.stackrestore"] = n_nop;
    N["llvm.uadd.with.overflow"] = n_ovf<O_ADD>; N["llvm.usub.with.overflow"] = n_ovf<O_SUB>; N["llvm.umul.with.overflow"] = n_ovf<O_MUL>;
    N["llvm.fshl"] = n_fshl;
}
static Native findNative(const std::string &name)
{
    auto it = natives.find(name);
    if (it != natives.end()) return it->second;
    if (name.compare(0, 5, "llvm.") == 0)
    {
        std::string s = name;
        while (true)
        {
            size_t p = s.rfind('.');
            if (p == std::string::npos || p < 5) return nullptr;
            s = s.substr(0, p);
            it = natives.find(s);
            if (it != natives.end()) return it->second;
        }
    }
    return nullptr;
}
