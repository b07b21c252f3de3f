#include "exec.h"
#include "decode.h"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/DebugInfo.h>
#include <cxxabi.h>
#include <chrono>
#include <cmath>
#include <random>
#include <functional>
#include <pthread.h>
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>
using namespace llvm;

const DataLayout* g_dl;
static Module*    g_mod;
static Solver*    g_solver;
static State*     g_init;          // state being initialised (for constAddr)
static std::unordered_map<const GlobalValue*, uint64_t> g_addr;
static std::unordered_map<uint64_t, const Function*>    g_fnById;
static std::unordered_map<uint64_t, std::string>        g_extById;
static std::vector<State*> g_work;
static std::mt19937_64     g_rng;

// options
static int      o_case = 0, o_tier = 0;
static uint64_t o_maxSteps = 20000000;
static double   o_maxTime  = 600;
static std::string o_out;
static uint64_t o_samples = 6;
static bool     o_uninitOk = true;
static int      o_maxViol = 12;
static bool     o_verbose = false;

// stats
static uint64_t n_paths, n_killed, n_forks, n_instr, n_states, n_uninit, n_asserts, n_memchecks, n_trunc;
static std::map<std::string, uint64_t> g_reach;
static std::map<std::string, uint64_t> g_bounds;
static std::map<std::string, uint64_t> g_incon;
static std::map<std::string, uint64_t> g_ignored;
static double t_start;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Rec { std::string kind, msg, loc; std::vector<std::pair<std::string, std::string>> inputs; std::vector<uint64_t> log; std::vector<uint8_t> sched; };
static std::vector<Rec> g_viol, g_samples;

enum EndKind { E_OK, E_KILL, E_VIOL, E_INC };
struct PathEnd { EndKind k; };

static std::string jesc(const std::string& s) {
    std::string o;
    for ( unsigned char c : s ) {
        if ( c == '"' || c == '\\' ) { o += '\\'; o += c; }
        else if ( c < 32 || c > 126 ) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

static std::string locOf(State& s) {
    std::string r;
    auto& th = s.th[s.cur];
    int n = 0;
    for ( int i = (int)th.stack.size() - 1; i >= 0 && n < 9; i--, n++ ) {
        Frame& f = *th.stack[i];
        int st; char* dm = abi::__cxa_demangle(f.fi->F->getName().str().c_str(), 0, 0, &st);
        std::string nm = st == 0 ? dm : f.fi->F->getName().str();
        free(dm);
        if ( nm.size() > 90 ) nm = nm.substr(0, 90);
        r += (n ? " < " : "") + nm;
        if ( f.pc < (int)f.fi->code.size() ) {
            const Instruction* I = f.fi->code[f.pc].I;
            if ( I ) if ( auto& dl = I->getDebugLoc() ) r += ":" + std::to_string(dl.getLine());
        }
    }
    return r;
}

static Rec mkRec(State& s, const Model& m, const std::string& kind, const std::string& msg) {
    Rec r; r.kind = kind; r.msg = msg; r.loc = locOf(s);
    for ( auto& in : s.inputs ) {
        std::string hex;
        for ( E e : in.parts ) {
            u128 v = evalExpr(e, m);
            for ( unsigned i = 0; i < e->w / 8; i++ ) { char b[4]; snprintf(b, 4, "%02x", (unsigned)((v >> (8 * i)) & 0xff)); hex += b; }
        }
        r.inputs.push_back({ in.name, hex });
    }
    std::vector<uint64_t> lg;
    for ( auto n = s.log; n; n = n->prev ) lg.push_back(n->v.e ? (uint64_t)evalExpr(n->v.e, m) : n->v.c);
    std::reverse(lg.begin(), lg.end());
    r.log = lg; r.sched = s.sched;
    return r;
}
static std::map<std::string, int> g_violCount;
static void violation(State& s, const std::string& kind, const std::string& msg, ModelP m) {
    std::string key = kind + msg;
    int& c = g_violCount[key];
    c++;
    if ( c <= 3 ) {
        g_viol.push_back(mkRec(s, *m, kind, msg));
        if ( o_verbose ) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), g_viol.back().loc.c_str());
    }
}
[[noreturn]] static void violEnd(State& s, const std::string& kind, const std::string& msg) {
    violation(s, kind, msg, s.model);
    throw PathEnd { E_VIOL };
}
[[noreturn]] static void incon(State& s, const std::string& msg) {
    std::string l = locOf(s);
    if ( g_incon.size() < 50 ) g_incon[msg + " @ " + l]++;
    if ( o_verbose ) fprintf(stderr, "INCONCLUSIVE %s at %s\n", msg.c_str(), l.c_str());
    throw PathEnd { E_INC };
}

// ---------------------------------------------------------------- decisions
static void addPC(State& s, E c) {
    if ( c->w == 1 && c->op == OAnd ) { addPC(s, c->k[0]); addPC(s, c->k[1]); return; }
    if ( isC(c) ) return;
    for ( E e : s.pc ) if ( e == c ) return;
    s.pc.push_back(c);
}
static bool inPC(State& s, E c) { for ( E e : s.pc ) if ( e == c ) return true; return false; }

static State* cloneState(State& s) {
    State* n = new State(s);
    // step() holds a reference to the running thread's top frame: the clone gets its own copy
    for ( auto& t : n->th ) if ( !t.stack.empty() ) t.stack.back() = std::make_shared<Frame>(*t.stack.back());
    n_states++;
    return n;
}
static void pushWork(State* s) { g_work.push_back(s); }

static bool decide(State& s, E cond) {
    if ( isC(cond) ) return cond->c;
    if ( inPC(s, cond) ) return true;
    E nc = mkNot(cond);
    if ( inPC(s, nc) ) return false;
    bool mv = evalExpr(cond, *s.model) != 0;
    E other = mv ? nc : cond;
    ModelP m2;
    Res r = g_solver->check(s.pc, other, s.model, &m2);
    if ( r == UNKNOWN ) { g_incon["solver unknown @ " + locOf(s)]++; }
    if ( r == SAT ) {
        State* n = cloneState(s);
        addPC(*n, other);
        n->model = m2;
        n->depthForks++;
        pushWork(n);
        n_forks++;
        addPC(s, mv ? cond : nc);
        s.depthForks++;
    }
    return mv;
}
// concretise by forking over all feasible values
static uint64_t forkVal(State& s, const Val& v, unsigned w) {
    if ( !v.e ) return v.c;
    if ( isC(v.e) ) return (uint64_t)v.e->c;
    int guard = 0;
    while ( true ) {
        u128 mv = evalExpr(v.e, *s.model);
        if ( decide(s, mkCmp(OEq, v.e, mkConst(mv, w))) ) return (uint64_t)mv;
        if ( ++guard > 3 ) incon(s, "forkVal loop");
    }
}
static void assume(State& s, E c) {
    if ( isC(c) ) { if ( !c->c ) throw PathEnd { E_KILL }; return; }
    if ( inPC(s, c) ) return;
    if ( evalExpr(c, *s.model) != 1 ) {
        ModelP m;
        Res r = g_solver->check(s.pc, c, s.model, &m);
        if ( r == UNSAT ) throw PathEnd { E_KILL };
        if ( r == UNKNOWN ) incon(s, "solver unknown in assume");
        s.model = m;
    }
    addPC(s, c);
}
// is cond valid?  if not records a violation with msg; continues under cond
static void assertE(State& s, E cond, const std::string& kind, const std::string& msg) {
    n_asserts++;
    if ( isC(cond) ) {
        if ( !cond->c ) violEnd(s, kind, msg);
        return;
    }
    if ( inPC(s, cond) ) return;
    if ( evalExpr(cond, *s.model) == 0 ) {
        violation(s, kind, msg, s.model);
        assume(s, cond);   // continue where it holds (kills when infeasible)
        return;
    }
    ModelP m;
    Res r = g_solver->check(s.pc, mkNot(cond), s.model, &m, true);
    if ( r == UNSAT ) return;
    if ( r == UNKNOWN ) { g_incon["solver unknown in assert: " + msg]++; addPC(s, cond); return; }
    violation(s, kind, msg, m);
    addPC(s, cond);
}

// ---------------------------------------------------------------- memory
static uint32_t allocObj(State& s, uint64_t size, OKind k, bool uninit) {
    if ( size > (1u << 28) ) incon(s, "huge allocation");
    Obj* o = new Obj();
    o->size = size; o->kind = k;
    o->b.assign(size, 0);
    if ( uninit && size ) o->st.assign(size, 2);
    uint32_t id = s.as.add(o);
    if ( k == K_HEAP ) s.heapLive++;
    return id;
}
static inline uint64_t addrOf(uint32_t id) { return ((uint64_t)id << 32) | OBJ_BASE; }

static std::string objDesc(State& s, uint64_t addr) {
    char b[80]; snprintf(b, 80, "addr %lx", addr); return b;
}
// returns object; checks bounds.
static Obj* chk(State& s, uint64_t addr, uint32_t n, bool write, uint32_t& id, uint32_t& off) {
    id = addr >> 32;
    uint64_t o64 = (addr & 0xffffffff) - OBJ_BASE;
    Obj* o = s.as.get(id);
    if ( !o ) {
        if ( addr < 0x100000000ull ) violEnd(s, "memory", "null/invalid pointer dereference");
        violEnd(s, "memory", "invalid pointer dereference");
    }
    if ( o->freed ) violEnd(s, "memory", o->kind == K_STACK ? "use of dead stack memory" : "use after free");
    if ( o64 > o->size || o64 + n > o->size ) {
        violEnd(s, "memory", write ? "out-of-bounds write" : "out-of-bounds read");
    }
    if ( write && o->ro ) violEnd(s, "memory", "write to constant memory");
    if ( write && o->kind == K_FUNC ) violEnd(s, "memory", "write to code");
    off = (uint32_t)o64;
    return o;
}

// resolve possibly symbolic pointer to object + (possibly symbolic) offset
struct Ref { uint32_t id; uint32_t off; E so; };
static Ref resolve(State& s, const Val& p, uint32_t n, bool write) {
    Ref r { 0, 0, nullptr };
    if ( !p.e ) { chk(s, p.c, n, write, r.id, r.off); return r; }
    E pe = p.e;
    if ( isC(pe) ) { chk(s, (uint64_t)pe->c, n, write, r.id, r.off); return r; }
    n_memchecks++;
    uint64_t mv = (uint64_t)evalExpr(pe, *s.model);
    uint32_t id = mv >> 32;
    Obj* o = s.as.get(id);
    if ( !o || o->freed ) {
        // wholly invalid under this model
        violation(s, "memory", "invalid symbolic pointer dereference", s.model);
        // continue with the feasible valid part
        E other = mkNot(mkCmp(OEq, pe, mkConst(mv, 64)));
        ModelP m;
        // exclude the whole object region when possible
        E reg = mkNot(mkCmp(OEq, mkExtract(pe, 32, 32), mkConst(id, 32)));
        if ( g_solver->check(s.pc, reg, s.model, &m) == SAT ) { addPC(s, reg); s.model = m; return resolve(s, p, n, write); }
        (void)other;
        throw PathEnd { E_VIOL };
    }
    uint64_t base = addrOf(id);
    E off = mkBin(OSub, pe, mkConst(base, 64));
    E inb = o->size >= n ? mkCmp(OUle, off, mkConst(o->size - n, 64)) : mkConst(0, 1);
    if ( evalExpr(inb, *s.model) == 0 ) {
        violation(s, "memory", write ? "out-of-bounds write (symbolic index)" : "out-of-bounds read (symbolic index)", s.model);
        assume(s, inb);
    } else {
        // could leave this object: either other object or OOB
        E sameObj = mkCmp(OUlt, mkBin(OAdd, off, mkConst(OBJ_BASE, 64)), mkConst(0x100000000ull, 64));
        if ( !decide(s, mkOrB(inb, mkConst(0, 1))) ) incon(s, "resolve");
        (void)sameObj;
        // decide() forked a state where inb is false: it re-executes and finds another object or reports
    }
    if ( write && o->ro ) violEnd(s, "memory", "write to constant memory");
    r.id = id;
    if ( isC(off) ) { r.off = (uint32_t)off->c; return r; }
    // unique?
    uint64_t ov = (uint64_t)evalExpr(off, *s.model);
    ModelP m;
    Res q = g_solver->check(s.pc, mkNot(mkCmp(OEq, off, mkConst(ov, 64))), s.model, &m);
    if ( q == UNSAT ) { r.off = (uint32_t)ov; return r; }
    r.so = off; r.off = 0;
    return r;
}
// enumerate feasible offsets
static std::vector<uint64_t> feasOffsets(State& s, E off, size_t limit) {
    std::vector<uint64_t> out;
    std::vector<E> pc = s.pc;
    ModelP m = s.model;
    while ( true ) {
        uint64_t v = (uint64_t)evalExpr(off, *m);
        out.push_back(v);
        if ( out.size() > limit ) incon(s, "too many feasible offsets");
        pc.push_back(mkNot(mkCmp(OEq, off, mkConst(v, 64))));
        E last = pc.back();
        pc.pop_back();
        ModelP m2;
        Res r = g_solver->check(pc, last, m, &m2);
        if ( r == UNSAT ) break;
        if ( r == UNKNOWN ) incon(s, "solver unknown enumerating offsets");
        pc.push_back(last);
        m = m2;
    }
    std::sort(out.begin(), out.end());
    return out;
}

static Val readConcOff(State& s, uint32_t id, uint32_t off, unsigned nb, unsigned w);
static E byteAt(State& s, uint32_t id, uint32_t off) {
    Obj* o = s.as.get(id);
    if ( o->st.empty() || o->st[off] == 0 ) return mkConst(o->b[off], 8);
    if ( o->st[off] == 1 ) return o->s[off];
    // uninitialised: materialise
    n_uninit++;
    o = s.as.getW(id);
    o->ensureS();
    char nm[64]; snprintf(nm, 64, "uninit_%u_%u", id, off);
    E v = mkVar(nm, 8);
    o->st[off] = 1; o->s[off] = v;
    return v;
}
static Val readConcOff(State& s, uint32_t id, uint32_t off, unsigned nb, unsigned w) {
    Obj* o = s.as.get(id);
    bool conc = o->st.empty();
    if ( !conc ) { conc = true; for ( unsigned i = 0; i < nb; i++ ) if ( o->st[off + i] ) { conc = false; break; } }
    if ( conc ) {
        if ( nb <= 8 ) { uint64_t v = 0; memcpy(&v, &o->b[off], nb); return vc(v & m64(w)); }
        u128 v = 0; memcpy(&v, &o->b[off], nb > 16 ? 16 : nb);
        return vE(mkConst(v, w));
    }
    bool allUn = true;
    for ( unsigned i = 0; i < nb; i++ ) if ( o->st[off + i] != 2 ) { allUn = false; break; }
    if ( allUn ) {
        n_uninit++;
        o = s.as.getW(id);
        o->ensureS();
        char nm[64]; snprintf(nm, 64, "uninit_%u_%u", id, off);
        E v = mkVar(nm, nb * 8);
        for ( unsigned i = 0; i < nb; i++ ) { o->st[off + i] = 1; o->s[off + i] = mkExtract(v, i * 8, 8); }
        return vE(mkExtract(v, 0, w));
    }
    // fast path: whole expression
    E r = byteAt(s, id, off);
    for ( unsigned i = 1; i < nb; i++ ) r = mkConcat(byteAt(s, id, off + i), r);
    return vE(mkExtract(r, 0, w));
}
static void writeConcOff(State& s, uint32_t id, uint32_t off, unsigned nb, unsigned w, const Val& v) {
    Obj* o = s.as.getW(id);
    if ( !v.e ) {
        memcpy(&o->b[off], &v.c, nb);
        if ( !o->st.empty() ) memset(&o->st[off], 0, nb);
        return;
    }
    E e = v.e;
    if ( w < nb * 8 ) e = mkZExt(e, nb * 8);
    if ( isC(e) ) {
        u128 c = e->c; memcpy(&o->b[off], &c, nb);
        if ( !o->st.empty() ) memset(&o->st[off], 0, nb);
        return;
    }
    o->ensureS();
    for ( unsigned i = 0; i < nb; i++ ) {
        E x = mkExtract(e, i * 8, 8);
        if ( isC(x) ) { o->b[off + i] = (uint8_t)x->c; o->st[off + i] = 0; }
        else { o->st[off + i] = 1; o->s[off + i] = x; }
    }
}
static Val loadW(State& s, const Val& p, unsigned w) {
    unsigned nb = (w + 7) / 8;
    if ( !p.e ) {
        uint32_t id, off;
        Obj* o = chk(s, p.c, nb, false, id, off);
        if ( o->st.empty() && nb <= 8 ) { uint64_t v = 0; memcpy(&v, &o->b[off], nb); return vc(v & m64(w)); }
        return readConcOff(s, id, off, nb, w);
    }
    Ref r = resolve(s, p, nb, false);
    if ( !r.so ) return readConcOff(s, r.id, r.off, nb, w);
    auto offs = feasOffsets(s, r.so, 600);
    E res = nullptr;
    for ( size_t i = offs.size(); i-- > 0; ) {
        E v = toE(readConcOff(s, r.id, (uint32_t)offs[i], nb, w), w);
        res = res ? mkIte(mkCmp(OEq, r.so, mkConst(offs[i], 64)), v, res) : v;
    }
    return vE(res);
}
static void storeW(State& s, const Val& p, unsigned w, const Val& v) {
    unsigned nb = (w + 7) / 8;
    if ( !p.e ) {
        uint32_t id, off;
        chk(s, p.c, nb, true, id, off);
        writeConcOff(s, id, off, nb, w, v);
        return;
    }
    Ref r = resolve(s, p, nb, true);
    if ( !r.so ) { writeConcOff(s, r.id, r.off, nb, w, v); return; }
    auto offs = feasOffsets(s, r.so, 600);
    for ( uint64_t o : offs ) {
        E old = toE(readConcOff(s, r.id, (uint32_t)o, nb, w), w);
        E nv  = mkIte(mkCmp(OEq, r.so, mkConst(o, 64)), toE(v, w), old);
        writeConcOff(s, r.id, (uint32_t)o, nb, w, vE(nv));
    }
}
static uint64_t rdC(State& s, uint64_t addr, unsigned nb) {
    Val v = loadW(s, vc(addr), nb * 8);
    if ( v.e ) v.c = forkVal(s, v, nb * 8);
    return v.c;
}
static std::string rdStr(State& s, const Val& p) {
    uint64_t a = forkVal(s, p, 64);
    std::string r;
    while ( true ) {
        Val v = loadW(s, vc(a), 8);
        char c = v.e ? (char)forkVal(s, v, 8) : (char)v.c;
        if ( !c || r.size() > 5000 ) break;
        r += c; a++;
    }
    return r;
}
static void copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n) {
    if ( !n ) return;
    uint32_t di, doff, si, soff;
    chk(s, src, n, false, si, soff);
    chk(s, d, n, true, di, doff);
    Obj* D = s.as.getW(di);
    Obj* S = s.as.get(si);
    if ( S->st.empty() && D->st.empty() ) { memmove(&D->b[doff], &S->b[soff], n); return; }
    std::vector<uint8_t> b(S->b.begin() + soff, S->b.begin() + soff + n), st;
    std::vector<E> se;
    if ( !S->st.empty() ) st.assign(S->st.begin() + soff, S->st.begin() + soff + n); else st.assign(n, 0);
    bool anyS = false;
    for ( auto x : st ) anyS |= x == 1;
    if ( anyS ) se.assign(S->s.begin() + soff, S->s.begin() + soff + n);
    memcpy(&D->b[doff], b.data(), n);
    D->ensureSt();
    if ( anyS ) D->ensureS();
    memcpy(&D->st[doff], st.data(), n);
    if ( anyS ) for ( uint64_t i = 0; i < n; i++ ) if ( st[i] == 1 ) D->s[doff + i] = se[i];
}
static void setBytes(State& s, uint64_t d, const Val& v, uint64_t n) {
    if ( !n ) return;
    uint32_t di, doff;
    chk(s, d, n, true, di, doff);
    Obj* D = s.as.getW(di);
    if ( !v.e ) {
        memset(&D->b[doff], (int)v.c, n);
        if ( !D->st.empty() ) memset(&D->st[doff], 0, n);
    } else for ( uint64_t i = 0; i < n; i++ ) writeConcOff(s, di, doff + i, 1, 8, vE(mkExtract(v.e, 0, 8)));
}
static void freeObj(State& s, uint64_t addr, const char* what) {
    if ( !addr ) return;
    uint32_t id = addr >> 32;
    Obj* o = s.as.get(id);
    if ( !o || (addr & 0xffffffff) != OBJ_BASE ) violEnd(s, "memory", std::string("invalid pointer passed to ") + what);
    if ( o->freed ) violEnd(s, "memory", "double free");
    if ( o->kind != K_HEAP ) violEnd(s, "memory", "free of non-heap memory");
    o = s.as.getW(id);
    o->freed = true;
    o->b.clear(); o->b.shrink_to_fit(); o->st.clear(); o->st.shrink_to_fit(); o->s.clear(); o->s.shrink_to_fit();
    s.heapLive--;
}

// ---------------------------------------------------------------- globals
uint64_t constAddr(const Constant* c) {
    if ( auto* gv = dyn_cast<GlobalValue>(c) ) {
        if ( auto* ga = dyn_cast<GlobalAlias>(gv) ) return constAddr(ga->getAliasee());
        auto it = g_addr.find(gv);
        if ( it != g_addr.end() ) return it->second;
        errs() << "no address for " << gv->getName() << "\n";
        abort();
    }
    if ( isa<ConstantPointerNull>(c) || isa<UndefValue>(c) ) return 0;
    if ( auto* ci = dyn_cast<ConstantInt>(c) ) return ci->getZExtValue();
    if ( auto* ce = dyn_cast<ConstantExpr>(c) ) {
        switch ( ce->getOpcode() ) {
        case Instruction::GetElementPtr: {
            APInt off(64, 0);
            cast<GEPOperator>(ce)->accumulateConstantOffset(*g_dl, off);
            return constAddr(ce->getOperand(0)) + off.getSExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return constAddr(ce->getOperand(0));
        case Instruction::Add: return constAddr(ce->getOperand(0)) + constAddr(ce->getOperand(1));
        case Instruction::Sub: return constAddr(ce->getOperand(0)) - constAddr(ce->getOperand(1));
        case Instruction::Trunc: return constAddr(ce->getOperand(0)) & m64(ce->getType()->getIntegerBitWidth());
        case Instruction::Xor: return constAddr(ce->getOperand(0)) ^ constAddr(ce->getOperand(1));
        case Instruction::Shl: return constAddr(ce->getOperand(0)) << constAddr(ce->getOperand(1));
        case Instruction::ICmp: return 0;
        default: break;
        }
    }
    if ( auto* ds = dyn_cast<DSOLocalEquivalent>(c) ) return constAddr(ds->getGlobalValue());
    if ( auto* nc = dyn_cast<NoCFIValue>(c) ) return constAddr(nc->getGlobalValue());
    errs() << "constAddr? " << *c << "\n";
    abort();
}
static void initBytes(Obj* o, uint64_t off, const Constant* c) {
    Type* t = c->getType();
    if ( isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c) ) return;
    if ( auto* cd = dyn_cast<ConstantDataSequential>(c) ) {
        StringRef r = cd->getRawDataValues();
        memcpy(&o->b[off], r.data(), r.size());
        return;
    }
    if ( auto* cs = dyn_cast<ConstantStruct>(c) ) {
        auto* sl = g_dl->getStructLayout(cast<StructType>(t));
        for ( unsigned i = 0; i < cs->getNumOperands(); i++ ) initBytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
        return;
    }
    if ( auto* ca = dyn_cast<ConstantArray>(c) ) {
        uint64_t es = g_dl->getTypeAllocSize(ca->getType()->getElementType());
        for ( unsigned i = 0; i < ca->getNumOperands(); i++ ) initBytes(o, off + i * es, ca->getOperand(i));
        return;
    }
    if ( auto* cv = dyn_cast<ConstantVector>(c) ) {
        uint64_t es = g_dl->getTypeAllocSize(cv->getType()->getElementType());
        for ( unsigned i = 0; i < cv->getNumOperands(); i++ ) initBytes(o, off + i * es, cv->getOperand(i));
        return;
    }
    if ( auto* cf = dyn_cast<ConstantFP>(c) ) {
        APInt a = cf->getValueAPF().bitcastToAPInt();
        memcpy(&o->b[off], a.getRawData(), std::min<uint64_t>(g_dl->getTypeStoreSize(t), a.getNumWords() * 8));
        return;
    }
    if ( auto* ci = dyn_cast<ConstantInt>(c) ) {
        memcpy(&o->b[off], ci->getValue().getRawData(), g_dl->getTypeStoreSize(t));
        return;
    }
    uint64_t v = constAddr(c);
    memcpy(&o->b[off], &v, g_dl->getTypeStoreSize(t));
}
static std::unordered_map<const Function*, std::unique_ptr<FI>> g_fis;
static FI* getFI(const Function* f) {
    auto& p = g_fis[f];
    if ( !p ) {
        p.reset(new FI());
        p->F = const_cast<Function*>(f);
        decodeFunction(*p);
    }
    return p.get();
}

// ---------------------------------------------------------------- calls
struct Args { std::vector<Val> v; const DI* d; const CallBase* cb; };
typedef Val (*BFn)(State&, Args&);
struct BI { BFn fn; };
static std::unordered_map<std::string, BFn> g_builtins;
static std::unordered_map<std::string, BFn> g_override;  // take priority over bodies
static std::unordered_map<const Function*, Callee*> g_callees;
static std::vector<BFn> g_bfn;
enum { B_UNDEF = -1, B_INTRIN = -2 };

Callee* resolveCallee(const Function* f) {
    auto& c = g_callees[f];
    if ( c ) return c;
    c = new Callee { f, nullptr, B_UNDEF };
    std::string n = f->getName().str();
    if ( f->isIntrinsic() ) { c->builtin = B_INTRIN; return c; }
    auto it = g_override.find(n);
    if ( it == g_override.end() && !f->isDeclaration() ) return c;
    if ( it == g_override.end() ) it = g_builtins.find(n);
    if ( it != g_builtins.end() && it->second ) { g_bfn.push_back(it->second); c->builtin = (int)g_bfn.size() - 1; }
    return c;
}

static inline Val get(Frame& f, int i) { return i >= 0 ? f.r[i] : f.fi->pool[~i]; }
static void takeEdge(Frame& f, int ei) {
    Edge& e = f.fi->edges[ei];
    size_t n = e.copies.size();
    if ( n == 1 ) f.r[e.copies[0].first] = get(f, e.copies[0].second);
    else if ( n ) {
        Val tmp[256];
        std::vector<Val> big;
        Val* t = tmp;
        if ( n > 256 ) { big.resize(n); t = big.data(); }
        for ( size_t i = 0; i < n; i++ ) t[i] = get(f, e.copies[i].second);
        for ( size_t i = 0; i < n; i++ ) f.r[e.copies[i].first] = t[i];
    }
    f.pc = e.target;
}
static void popFrame(State& s) {
    auto& st = s.th[s.cur].stack;
    for ( uint32_t id : st.back()->allocas ) {
        // dead stack object: keep a tombstone so that dangling uses are reported
        Obj* o = new Obj(); o->size = 0; o->kind = K_STACK; o->freed = true;
        Chunk* c = s.as.wchunk(id >> 6);
        Obj*& slot = c->o[id & 63];
        if ( slot && --slot->refc == 0 ) delete slot;
        slot = o;
    }
    st.pop_back();
}

static void finishCall(Frame& f) { // advance after call in frame f (pc at call instr)
    DI& d = f.fi->code[f.pc];
    f.fi->cov[f.pc] = 1;
    if ( d.fl == 1 ) takeEdge(f, d.b); else f.pc++;
}

static void pushCall(State& s, FI* fi, const std::vector<Val>& args, int retDst) {
    auto& st = s.th[s.cur].stack;
    if ( st.size() > 600 ) violEnd(s, "memory", "stack overflow (recursion depth > 600)");
    auto f = std::make_shared<Frame>();
    f->fi = fi;
    f->r.assign(fi->nregs, vc(0));
    f->retDst = retDst;
    size_t na = 0;
    for ( int n : fi->argSlots ) na += n;
    size_t k = std::min(na, args.size());
    for ( size_t i = 0; i < k; i++ ) f->r[i] = args[i];
    if ( fi->F->isVarArg() ) for ( size_t i = na; i < args.size(); i++ ) f->va.push_back(args[i]);
    fi->count++;
    st.push_back(f);
}

// type info helpers --------------------------------------------------
static std::string tiKind(State& s, uint64_t ti) {
    uint64_t vp = rdC(s, ti, 8);
    auto it = g_extById.find(vp >> 32);
    return it == g_extById.end() ? "" : it->second;
}
// does type t derive (unambiguously enough) from c; adjusts off
static bool tiDerives(State& s, uint64_t t, uint64_t c, int64_t& off, uint64_t objAddr) {
    if ( t == c ) return true;
    std::string k = tiKind(s, t);
    if ( k.find("__si_class") != std::string::npos ) return tiDerives(s, rdC(s, t + 16, 8), c, off, objAddr);
    if ( k.find("__vmi_class") != std::string::npos ) {
        uint32_t n = (uint32_t)rdC(s, t + 20, 4);
        for ( uint32_t i = 0; i < n; i++ ) {
            uint64_t b = rdC(s, t + 24 + 16 * i, 8);
            int64_t  fl = (int64_t)rdC(s, t + 32 + 16 * i, 8);
            int64_t  o = fl >> 8;
            if ( fl & 1 ) { // virtual base: offset in vtable
                if ( !objAddr ) continue;
                uint64_t vp = rdC(s, objAddr + off, 8);
                o = (int64_t)rdC(s, vp + o, 8);
            }
            int64_t sv = off;
            off += o;
            if ( tiDerives(s, b, c, off, objAddr) ) return true;
            off = sv;
        }
    }
    return false;
}
static std::string tiName(State& s, uint64_t ti) {
    std::string n = rdStr(s, vc(rdC(s, ti + 8, 8)));
    int st; char* d = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
    std::string r = st == 0 ? d : n;
    free(d);
    return r;
}
static void unwind(State& s, bool includeTop) {
    auto& th = s.th[s.cur];
    uint64_t obj = th.excObj;
    uint64_t ti  = rdC(s, obj - 32, 8);
    if ( !includeTop ) popFrame(s);
    while ( !th.stack.empty() ) {
        Frame& f = s.top();
        DI& d = f.fi->code[f.pc];
        if ( d.op == D_CALL && d.fl == 1 ) {
            int tgt = f.fi->edges[d.c].target;
            DI& lp = f.fi->code[tgt];
            if ( lp.op != D_LPAD ) incon(s, "landing pad expected");
            int64_t sel = -1;
            for ( size_t i = 0; i < lp.x.size(); i++ ) {
                if ( lp.x[i] == 1 ) incon(s, "exception filter");
                uint64_t ct = get(f, lp.v[i]).c;
                if ( ct == 0 ) { sel = 0x7ffffff0; break; }
                int64_t off = 0;
                if ( tiDerives(s, ti, ct, off, obj) ) {
                    sel = ct >> 32;
                    Obj* o = nullptr; (void)o;
                    storeW(s, vc(obj - 16), 64, vc((uint64_t)off));
                    break;
                }
            }
            if ( sel < 0 && lp.fl ) sel = 0;
            if ( sel >= 0 ) {
                takeEdge(f, d.c);
                f.r[lp.dst] = vc(obj);
                f.r[lp.dst + 1] = vc((uint64_t)sel);
                f.fi->cov[f.pc] = 1;
                f.pc++;
                return;
            }
        }
        if ( f.fi->F->doesNotThrow() && th.stack.size() > 1 ) {
            // noexcept function: std::terminate
        }
        popFrame(s);
    }
    violEnd(s, "exception", "uncaught exception " + tiName(s, ti));
}

static Val schedYield(State& s);

// ---------------------------------------------------------------- interpreter
static Val doBin(State& s, const DI& d, const Val& a, const Val& b) {
    unsigned w = d.w;
    if ( !a.e && !b.e && w <= 64 ) {
        uint64_t m = m64(w), x = a.c, y = b.c;
        switch ( d.sub ) {
        case OAdd: return vc((x + y) & m);
        case OSub: return vc((x - y) & m);
        case OMul: return vc((x * y) & m);
        case OAnd: return vc(x & y);
        case OOr: return vc(x | y);
        case OXor: return vc(x ^ y);
        case OShl: return vc(y >= w ? 0 : (x << y) & m);
        case OLShr: return vc(y >= w ? 0 : x >> y);
        case OUDiv: if ( y ) return vc(x / y); break;
        case OURem: if ( y ) return vc(x % y); break;
        default: break;
        }
        if ( d.fl && y == 0 ) violEnd(s, "arith", "division by zero");
        return vc((uint64_t)foldBin((Op)d.sub, x, y, w));
    }
    E eb = toE(b, w);
    if ( d.fl ) {
        E nz = mkNot(mkCmp(OEq, eb, mkConst(0, w)));
        assertE(s, nz, "arith", "division by zero");
    }
    return vE(mkBin((Op)d.sub, toE(a, w), eb));
}
static Val doICmp(unsigned pred, const Val& a, const Val& b, unsigned w) {
    if ( !a.e && !b.e ) {
        uint64_t x = a.c, y = b.c;
        int64_t sx = (int64_t)(x << (64 - w)) >> (64 - w), sy = (int64_t)(y << (64 - w)) >> (64 - w);
        switch ( pred ) {
        case CmpInst::ICMP_EQ: return vc(x == y);
        case CmpInst::ICMP_NE: return vc(x != y);
        case CmpInst::ICMP_UGT: return vc(x > y);
        case CmpInst::ICMP_UGE: return vc(x >= y);
        case CmpInst::ICMP_ULT: return vc(x < y);
        case CmpInst::ICMP_ULE: return vc(x <= y);
        case CmpInst::ICMP_SGT: return vc(sx > sy);
        case CmpInst::ICMP_SGE: return vc(sx >= sy);
        case CmpInst::ICMP_SLT: return vc(sx < sy);
        case CmpInst::ICMP_SLE: return vc(sx <= sy);
        }
    }
    E x = toE(a, w), y = toE(b, w);
    switch ( pred ) {
    case CmpInst::ICMP_EQ: return vE(mkCmp(OEq, x, y));
    case CmpInst::ICMP_NE: return vE(mkNot(mkCmp(OEq, x, y)));
    case CmpInst::ICMP_UGT: return vE(mkCmp(OUlt, y, x));
    case CmpInst::ICMP_UGE: return vE(mkCmp(OUle, y, x));
    case CmpInst::ICMP_ULT: return vE(mkCmp(OUlt, x, y));
    case CmpInst::ICMP_ULE: return vE(mkCmp(OUle, x, y));
    case CmpInst::ICMP_SGT: return vE(mkCmp(OSlt, y, x));
    case CmpInst::ICMP_SGE: return vE(mkCmp(OSle, y, x));
    case CmpInst::ICMP_SLT: return vE(mkCmp(OSlt, x, y));
    case CmpInst::ICMP_SLE: return vE(mkCmp(OSle, x, y));
    }
    abort();
}
static E fcmpE(unsigned pred, E x, E y) {
    E T = mkConst(1, 1);
    E u = mkFCmp(OFUno, x, y);
    switch ( pred ) {
    case CmpInst::FCMP_FALSE: return mkConst(0, 1);
    case CmpInst::FCMP_OEQ: return mkFCmp(OFEq, x, y);
    case CmpInst::FCMP_OGT: return mkFCmp(OFLt, y, x);
    case CmpInst::FCMP_OGE: return mkFCmp(OFLe, y, x);
    case CmpInst::FCMP_OLT: return mkFCmp(OFLt, x, y);
    case CmpInst::FCMP_OLE: return mkFCmp(OFLe, x, y);
    case CmpInst::FCMP_ONE: return mkAndB(mkNot(u), mkNot(mkFCmp(OFEq, x, y)));
    case CmpInst::FCMP_ORD: return mkNot(u);
    case CmpInst::FCMP_UNO: return u;
    case CmpInst::FCMP_UEQ: return mkOrB(u, mkFCmp(OFEq, x, y));
    case CmpInst::FCMP_UGT: return mkNot(mkFCmp(OFLe, x, y));
    case CmpInst::FCMP_UGE: return mkNot(mkFCmp(OFLt, x, y));
    case CmpInst::FCMP_ULT: return mkNot(mkFCmp(OFLe, y, x));
    case CmpInst::FCMP_ULE: return mkNot(mkFCmp(OFLt, y, x));
    case CmpInst::FCMP_UNE: return mkNot(mkFCmp(OFEq, x, y));
    default: return T;
    }
}

static Val fsel(const Val& c, const Val& a, const Val& b, unsigned w) {
    if ( !c.e ) return c.c ? a : b;
    return vE(mkIte(c.e, toE(a, w), toE(b, w)));
}

static bool runnable(State& s, int i) {
    auto& t = s.th[i];
    if ( t.st == T_JOIN ) {
        for ( int k = 0; k < (int)s.th.size(); k++ ) if ( k != i && s.th[k].st != T_DONE ) return false;
        return true;
    }
    return t.st == T_RUN || (t.st == T_YIELD && t.yieldEpoch != s.writeEpoch - t.own);
}
static inline void wrote(State& s) { s.writeEpoch++; s.th[s.cur].own++; }
// a spinning thread waits until another thread has written something since its previous wait
static void setYield(State& s) {
    auto& t = s.th[s.cur];
    t.st = T_YIELD;
    t.yieldEpoch = t.seen;
    t.seen = s.writeEpoch - t.own;
}
static uint64_t n_sched = 0;
// pick who runs next at a scheduling point; forks over all choices. mustSwitch: current cannot continue
static void schedule(State& s, bool mustSwitch) {
    if ( s.sched.size() > (s.preemptBound < 0 || s.fair ? 60000u : 3000u) ) violEnd(s, "hang", "a thread spins forever");
    std::vector<int> opts;
    for ( int i = 0; i < (int)s.th.size(); i++ ) {
        if ( i == s.cur && mustSwitch ) continue;
        if ( i != s.cur && !mustSwitch && (s.preempts >= s.preemptBound || s.preemptBound < 0) ) continue;
        if ( runnable(s, i) ) opts.push_back(i);
    }
    if ( opts.empty() && mustSwitch && s.th[s.cur].st != T_DONE && runnable(s, s.cur) ) opts.push_back(s.cur);
    if ( opts.empty() ) {
        if ( mustSwitch ) {
            bool allDone = true;
            for ( auto& t : s.th ) if ( t.st != T_DONE ) allDone = false;
            if ( !allDone ) violEnd(s, "deadlock", "no runnable thread (deadlock/livelock)");
            return;
        }
        opts.push_back(s.cur);
    }
    // a negative bound: the next thread in turn, without exploring the other choices
    if ( s.preemptBound < 0 && opts.size() > 1 ) {
        int pick = opts[0];
        if ( mustSwitch ) for ( int o : opts ) if ( o > s.cur ) { pick = o; break; }
        opts.assign(1, pick);
    }
    // keep current first for DFS order
    for ( size_t i = 1; i < opts.size(); i++ ) {
        State* n = cloneState(s);
        if ( !mustSwitch && opts[i] != s.cur ) n->preempts++;
        if ( opts[i] != s.cur ) n->visits.clear();
        n->cur = opts[i];
        n->th[n->cur].st = T_RUN;
        n->sched.push_back(opts[i]);
        n->skipSched = true;
        pushWork(n);
        n_forks++; n_sched++;
    }
    if ( !mustSwitch && opts[0] != s.cur ) s.preempts++;
    s.cur = opts[0];
    s.th[s.cur].st = T_RUN;
    s.sched.push_back(opts[0]);
}
// returns true when the instruction should be (re)started in possibly other thread
static bool schedPoint(State& s) {
    if ( s.th.size() < 2 ) return false;
    if ( s.skipSched ) { s.skipSched = false; return false; }
    int live = 0;
    for ( auto& t : s.th ) if ( t.st != T_DONE ) live++;
    if ( live < 2 ) return false;
    int old = s.cur;
    if ( s.fair ) { // a loop that waits without a hint: no more choices after a few turns, then the next thread's turn
        const void* at = (const char*)s.th[s.cur].stack.back()->fi + s.th[s.cur].stack.back()->pc;
        int n = 0;
        for ( auto& v : s.visits ) if ( v.first == at ) n = ++v.second;
        if ( !n ) s.visits.push_back({ at, n = 1 });
        if ( n > s.fair ) {
            s.visits.clear();
            if ( s.sched.size() > 60000u ) violEnd(s, "hang", "the threads spin forever");
            int nt = (int)s.th.size(), pick = s.cur;
            for ( int i = 1; i < nt; i++ ) if ( runnable(s, (s.cur + i) % nt) ) { pick = (s.cur + i) % nt; break; }
            s.cur = pick; s.th[pick].st = T_RUN; s.sched.push_back(pick);
            return s.cur != old ? (s.skipSched = true, true) : false;
        }
        if ( n > s.fair / 2 ) { s.sched.push_back(s.cur); return false; }
    }
    schedule(s, false);
    if ( s.cur != old ) s.visits.clear();
    return s.cur != old ? (s.skipSched = true, true) : false;
}

static void runIntrinsic(State& s, Frame& f, const DI& d, const Function* F, std::vector<Val>& a);
// spin-wait hint: the thread waits until another thread writes something
static void doPause(State& s, Frame& f, bool adv = true) {
    if ( adv ) f.pc++;
    if ( s.th.size() > 1 ) {
        setYield(s);
        schedule(s, true); s.skipSched = true;
        return;
    }
    if ( ++s.pauses > 2000 ) violEnd(s, "hang", "single thread spins forever");
}

static Val callBuiltin(State& s, BFn fn, Args& a) { return fn(s, a); }
static bool g_inStatic = false;
static bool g_ctl; // builtin changed control flow (unwound / switched): do not finish call

static void doCall(State& s, Frame& f, const DI& d) {
    Callee* cal = (Callee*)(intptr_t)d.x[0];
    if ( !cal ) {
        Val fp = get(f, d.a);
        if ( fp.e ) {
            fp.c = forkVal(s, fp, 64);
        }
        auto it = g_fnById.find(fp.c >> 32);
        if ( it == g_fnById.end() || (fp.c & 0xffffffff) != OBJ_BASE ) violEnd(s, "memory", "call through invalid function pointer");
        cal = resolveCallee(it->second);
    }
    std::vector<Val> args;
    size_t na = d.v.size();
    for ( size_t i = 0; i < na; i++ ) {
        int64_t n = d.x[i + 1];
        if ( n >> 60 ) { // byval
            uint64_t sz = (uint64_t)(n & ((1ll << 60) - 1)) >> 16;
            Val p = get(f, d.v[i]);
            uint64_t src = forkVal(s, p, 64);
            uint32_t id = allocObj(s, sz, K_STACK, true);
            copyBytes(s, addrOf(id), src, sz);
            s.top().allocas.push_back(id);
            args.push_back(vc(addrOf(id)));
            continue;
        }
        for ( int k = 0; k < n; k++ ) { int o = d.v[i]; args.push_back(get(f, o >= 0 ? o + k : ~(~o + k))); }
    }
    if ( cal->builtin == B_INTRIN ) { runIntrinsic(s, f, d, cal->F, args); return; }
    if ( cal->builtin >= 0 ) {
        Args A { args, &d, cast<CallBase>(d.I) };
        g_ctl = false;
        Val r = g_bfn[cal->builtin](s, A);
        if ( g_ctl ) return;
        Frame& f2 = s.top();
        if ( d.dst >= 0 ) f2.r[d.dst] = r;
        finishCall(f2);
        return;
    }
    if ( cal->F->isDeclaration() ) {
        if ( g_inStatic ) { // registration with services outside the encoded units
            g_ignored["static initialiser: " + cal->F->getName().str()]++;
            for ( int k = 0; k < d.n; k++ ) if ( d.dst >= 0 ) f.r[d.dst + k] = vc(0);
            finishCall(f);
            return;
        }
        incon(s, "call to undefined external " + cal->F->getName().str());
    }
    if ( !cal->fi ) cal->fi = getFI(cal->F);
    pushCall(s, cal->fi, args, d.dst);
}

static void doRet(State& s, Frame& f, const DI& d) {
    Val tmp[16];
    std::vector<Val> big;
    int n = d.n;
    Val* v = tmp;
    if ( n > 16 ) { big.resize(n); v = big.data(); }
    for ( int i = 0; i < n; i++ ) v[i] = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
    int rd = f.retDst;
    popFrame(s);
    auto& th = s.th[s.cur];
    if ( th.stack.empty() ) {
        th.st = T_DONE;
        s.writeEpoch++;
        bool allDone = true;
        for ( auto& t : s.th ) if ( t.st != T_DONE ) allDone = false;
        if ( allDone || s.cur == 0 ) throw PathEnd { E_OK };
        schedule(s, true);
        s.skipSched = true;
        return;
    }
    Frame& g = s.top();
    if ( rd >= 0 ) for ( int i = 0; i < n; i++ ) g.r[rd + i] = v[i];
    finishCall(g);
}

static void step(State& s) {
    Frame& f = s.top();
    FI& fi = *f.fi;
    const DI& d = fi.code[f.pc];
    n_instr++;
    s.steps++;
    switch ( d.op ) {
    case D_BIN:
        if ( d.n == 1 ) f.r[d.dst] = doBin(s, d, get(f, d.a), get(f, d.b));
        else for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = doBin(s, d, get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), get(f, d.b >= 0 ? d.b + i : ~(~d.b + i)));
        break;
    case D_FBIN:
        if ( d.w == 80 ) incon(s, "x87 arithmetic");
        for ( int i = 0; i < d.n; i++ ) {
            Val a = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), b = get(f, d.b >= 0 ? d.b + i : ~(~d.b + i));
            if ( !a.e && !b.e ) f.r[d.dst + i] = vc((uint64_t)foldF((Op)d.sub, a.c, b.c, 0, d.w, d.w, 0));
            else f.r[d.dst + i] = vE(mkFBin((Op)d.sub, toE(a, d.w), toE(b, d.w)));
        }
        break;
    case D_FNEG:
        for ( int i = 0; i < d.n; i++ ) {
            Val a = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
            f.r[d.dst + i] = vE(mkBin(OXor, toE(a, d.w), mkConst((u128)1 << (d.w - 1), d.w)));
        }
        break;
    case D_ICMP:
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = doICmp(d.sub, get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), get(f, d.b >= 0 ? d.b + i : ~(~d.b + i)), d.w);
        break;
    case D_FCMP:
        if ( d.w == 80 ) incon(s, "x87 compare");
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = vE(fcmpE(d.sub, toE(get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), d.w), toE(get(f, d.b >= 0 ? d.b + i : ~(~d.b + i)), d.w)));
        break;
    case D_SELECT: {
        Val c = get(f, d.a);
        for ( int i = 0; i < d.n; i++ ) {
            if ( d.fl ) c = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
            // a choice between two concrete addresses/indices is a branch: keep addresses concrete
            if ( c.e && d.n == 1 && d.x[0] == 64 ) {
                Val ta = get(f, d.b), tb = get(f, d.c);
                if ( !ta.e && !tb.e && ta.c != tb.c ) { f.r[d.dst] = decide(s, c.e) ? ta : tb; break; }
            }
            f.r[d.dst + i] = fsel(c, get(f, d.b >= 0 ? d.b + i : ~(~d.b + i)), get(f, d.c >= 0 ? d.c + i : ~(~d.c + i)), (unsigned)d.x[i]);
        }
        break;
    }
    case D_TRUNC:
        for ( int i = 0; i < d.n; i++ ) {
            Val a = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
            f.r[d.dst + i] = a.e ? vE(mkExtract(a.e, 0, d.w2)) : vc(a.c & m64(d.w2));
        }
        break;
    case D_ZEXT:
        for ( int i = 0; i < d.n; i++ ) {
            Val a = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
            f.r[d.dst + i] = (a.e || d.w2 > 64) ? vE(mkZExt(toE(a, d.w), d.w2)) : a;
        }
        break;
    case D_SEXT:
        for ( int i = 0; i < d.n; i++ ) {
            Val a = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
            f.r[d.dst + i] = (a.e || d.w2 > 64) ? vE(mkSExt(toE(a, d.w), d.w2)) : vc((uint64_t)((int64_t)(a.c << (64 - d.w)) >> (64 - d.w)) & m64(d.w2));
        }
        break;
    case D_MOVE:
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = get(f, d.a >= 0 ? d.a + i : ~(~d.a + i));
        break;
    case D_BITCASTV: {
        // gather little-endian, split
        unsigned tot = d.w * d.b;
        if ( tot > 128 ) incon(s, "wide bitcast");
        E e = toE(get(f, d.a), d.w);
        for ( int i = 1; i < d.b; i++ ) e = mkConcat(toE(get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), d.w), e);
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = vE(mkExtract(e, i * d.w2, d.w2));
        break;
    }
    case D_FUN:
        if ( d.w == 80 || d.w2 == 80 ) incon(s, "x87 conversion");
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = vE(mkFUn((Op)d.sub, toE(get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)), d.w), d.w2, 0));
        break;
    case D_GEP: {
        Val b = get(f, d.a);
        uint64_t off = (uint64_t)d.x.back();
        E se = b.e;
        uint64_t acc = b.c;
        for ( size_t i = 0; i < d.v.size(); i++ ) {
            Val ix = get(f, d.v[i]);
            int64_t sc = d.x[2 * i]; unsigned w = (unsigned)d.x[2 * i + 1];
            if ( !ix.e ) { int64_t v = w < 64 ? (int64_t)(ix.c << (64 - w)) >> (64 - w) : (int64_t)ix.c; off += (uint64_t)(v * sc); }
            else {
                E x = w < 64 ? mkSExt(ix.e, 64) : ix.e;
                x = mkBin(OMul, x, mkConst((u128)(uint64_t)sc, 64));
                se = se ? mkBin(OAdd, se, x) : mkBin(OAdd, mkConst(acc, 64), x);
            }
        }
        f.r[d.dst] = se ? vE(mkBin(OAdd, se, mkConst(off, 64))) : vc(acc + off);
        break;
    }
    case D_LOAD: {
        Val p = get(f, d.a);
        if ( d.n == 1 && d.v[0] == 0 ) f.r[d.dst] = loadW(s, p, (unsigned)d.x[0]);
        else for ( int i = 0; i < d.n; i++ ) {
            Val q = p.e ? vE(mkBin(OAdd, p.e, mkConst(d.v[i], 64))) : vc(p.c + d.v[i]);
            f.r[d.dst + i] = loadW(s, q, (unsigned)d.x[i]);
        }
        break;
    }
    case D_STORE: {
        Val p = get(f, d.a);
        for ( int i = 0; i < d.n; i++ ) {
            Val q = p.e ? vE(mkBin(OAdd, p.e, mkConst(d.v[i], 64))) : vc(p.c + d.v[i]);
            storeW(s, q, (unsigned)d.x[i], get(f, d.b >= 0 ? d.b + i : ~(~d.b + i)));
        }
        if ( s.th.size() > 1 ) { Obj* o = p.e ? nullptr : s.as.get(p.c >> 32); if ( !o || o->kind != K_STACK ) wrote(s); }
        break;
    }
    case D_ALLOCA: {
        uint64_t n = forkVal(s, get(f, d.a), 64) * d.x[0];
        uint32_t id = allocObj(s, n, K_STACK, true);
        f.allocas.push_back(id);
        f.r[d.dst] = vc(addrOf(id));
        break;
    }
    case D_BR: fi.cov[f.pc] = 1; takeEdge(f, d.a); return;
    case D_CBR: {
        Val c = get(f, d.a);
        bool t = c.e ? decide(s, c.e) : c.c;
        fi.cov[f.pc] |= t ? 1 : 2;
        takeEdge(f, t ? d.b : d.c);
        return;
    }
    case D_SWITCH: {
        Val c = get(f, d.a);
        fi.cov[f.pc] = 1;
        if ( !c.e ) {
            for ( size_t i = 0; i < d.x.size(); i++ ) if ( (uint64_t)d.x[i] == c.c ) { takeEdge(f, d.v[i]); return; }
            takeEdge(f, d.b);
            return;
        }
        std::map<int, E> byT;   // group by target block
        std::map<int, int> rep;
        std::vector<int> order;
        for ( size_t i = 0; i < d.x.size(); i++ ) {
            E q = mkCmp(OEq, c.e, mkConst((u128)(uint64_t)d.x[i], d.w));
            int key = d.v[i];
            // edges with phi copies must not be merged unless identical
            int tgt = fi.edges[key].target; bool merged = false;
            for ( int o : order ) if ( fi.edges[o].target == tgt && fi.edges[o].copies == fi.edges[key].copies ) { byT[o] = mkOrB(byT[o], q); merged = true; break; }
            if ( !merged ) { order.push_back(key); byT[key] = q; }
        }
        for ( int o : order ) if ( decide(s, byT[o]) ) { takeEdge(f, o); return; }
        takeEdge(f, d.b);
        return;
    }
    case D_CALL: {
        doCall(s, f, d);
        return;
    }
    case D_ASM: {
        auto* ia = cast<InlineAsm>(cast<CallBase>(d.I)->getCalledOperand());
        std::string a = ia->getAsmString();
        if ( a.find("pause") != std::string::npos || a.find("nop") != std::string::npos ) {
            doPause(s, f);
            return;
        }
        if ( a.empty() || a.find("mfence") != std::string::npos ) { if ( d.dst >= 0 ) f.r[d.dst] = vc(0); break; }
        incon(s, "inline asm " + a);
    }
    case D_RET: fi.cov[f.pc] = 1; doRet(s, f, d); return;
    case D_UNREACH: violEnd(s, "unreachable", "reached unreachable code");
    case D_INSERT: {
        int k = (int)d.x[0], n = (int)d.x[1];
        std::vector<Val> t;
        for ( int i = 0; i < d.n; i++ ) t.push_back((i >= k && i < k + n) ? get(f, d.b >= 0 ? d.b + (i - k) : ~(~d.b + (i - k))) : get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)));
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = t[i];
        break;
    }
    case D_EXTELT: {
        Val ix = get(f, d.b);
        uint64_t k = forkVal(s, ix, 64);
        if ( k >= (uint64_t)d.c ) k = 0;
        f.r[d.dst] = get(f, d.a >= 0 ? d.a + (int)k : ~(~d.a + (int)k));
        break;
    }
    case D_INSELT: {
        uint64_t k = forkVal(s, get(f, d.c), 64);
        Val x = get(f, d.b);
        std::vector<Val> t;
        for ( int i = 0; i < d.n; i++ ) t.push_back(get(f, d.a >= 0 ? d.a + i : ~(~d.a + i)));
        if ( k < t.size() ) t[k] = x;
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = t[i];
        break;
    }
    case D_SHUF: {
        std::vector<Val> t;
        for ( int i = 0; i < d.n; i++ ) {
            int m = (int)d.x[i];
            if ( m < 0 ) t.push_back(vc(0));
            else if ( m < d.c ) t.push_back(get(f, d.a >= 0 ? d.a + m : ~(~d.a + m)));
            else t.push_back(get(f, d.b >= 0 ? d.b + (m - d.c) : ~(~d.b + (m - d.c))));
        }
        for ( int i = 0; i < d.n; i++ ) f.r[d.dst + i] = t[i];
        break;
    }
    case D_LPAD: incon(s, "fell into landing pad");
    case D_RESUME: {
        Val o = get(f, d.a);
        s.th[s.cur].excObj = o.c;
        unwind(s, false);
        return;
    }
    case D_RMW: {
        Val p = get(f, d.a), v = get(f, d.b);
        unsigned w = d.w;
        Val old = loadW(s, p, w);
        E o = toE(old, w), x = toE(v, w), r = nullptr;
        switch ( (AtomicRMWInst::BinOp)d.sub ) {
        case AtomicRMWInst::Xchg: r = x; break;
        case AtomicRMWInst::Add: r = mkBin(OAdd, o, x); break;
        case AtomicRMWInst::Sub: r = mkBin(OSub, o, x); break;
        case AtomicRMWInst::And: r = mkBin(OAnd, o, x); break;
        case AtomicRMWInst::Or: r = mkBin(OOr, o, x); break;
        case AtomicRMWInst::Xor: r = mkBin(OXor, o, x); break;
        case AtomicRMWInst::Max: r = mkIte(mkCmp(OSlt, o, x), x, o); break;
        case AtomicRMWInst::Min: r = mkIte(mkCmp(OSlt, x, o), x, o); break;
        case AtomicRMWInst::UMax: r = mkIte(mkCmp(OUlt, o, x), x, o); break;
        case AtomicRMWInst::UMin: r = mkIte(mkCmp(OUlt, x, o), x, o); break;
        default: incon(s, "atomicrmw op");
        }
        storeW(s, p, w, vE(r));
        f.r[d.dst] = old;
        if ( r != o ) wrote(s);   // writing back the same value wakes nobody
        break;
    }
    case D_CMPXCHG: {
        Val p = get(f, d.a);
        unsigned w = d.w;
        Val old = loadW(s, p, w);
        E eq = mkCmp(OEq, toE(old, w), toE(get(f, d.b), w));
        bool t = decide(s, eq);
        if ( t ) { storeW(s, p, w, get(f, d.c)); wrote(s); }
        f.r[d.dst] = old;
        f.r[d.dst + 1] = vc(t);
        break;
    }
    case D_FENCE: break;
    default: {
        std::string str; raw_string_ostream os(str); os << *d.I;
        incon(s, "unsupported instruction " + os.str());
    }
    }
    fi.cov[f.pc] = 1;
    f.pc++;
}

#include "builtins.inc"

static bool memFull() { struct rusage ru; getrusage(RUSAGE_SELF, &ru); return ru.ru_maxrss > 3900000; }
static void runState(State* s) {
    try {
        while ( true ) {
            step(*s);
            if ( (s->steps & 0xfff) == 0 ) {
                if ( s->steps > o_maxSteps ) {
                    violation(*s, "hang", "path exceeded the step budget", s->model);
                    n_trunc++;
                    throw PathEnd { E_VIOL };
                }
                if ( now() - t_start > o_maxTime ) { g_incon["time budget exhausted"]++; throw PathEnd { E_INC }; }
                if ( (s->steps & 0x3ffff) == 0 && memFull() ) { g_incon["memory budget exhausted"]++; throw PathEnd { E_INC }; }
            }
        }
    } catch ( PathEnd& e ) {
        if ( e.k == E_OK ) {
            n_paths++;
            if ( g_samples.size() < o_samples ) g_samples.push_back(mkRec(*s, *s->model, "path", ""));
            else { uint64_t k = g_rng() % n_paths; if ( k < o_samples ) g_samples[k] = mkRec(*s, *s->model, "path", ""); }
        } else if ( e.k == E_KILL ) n_killed++;
    }
    delete s;
}

static void writeRec(FILE* f, const Rec& r) {
    fprintf(f, "{\"kind\":\"%s\",\"msg\":\"%s\",\"loc\":\"%s\",\"inputs\":[", jesc(r.kind).c_str(), jesc(r.msg).c_str(), jesc(r.loc).c_str());
    for ( size_t i = 0; i < r.inputs.size(); i++ ) fprintf(f, "%s[\"%s\",\"%s\"]", i ? "," : "", jesc(r.inputs[i].first).c_str(), r.inputs[i].second.c_str());
    fprintf(f, "],\"log\":[");
    for ( size_t i = 0; i < r.log.size(); i++ ) fprintf(f, "%s\"%lx\"", i ? "," : "", r.log[i]);
    fprintf(f, "],\"sched\":[");
    for ( size_t i = 0; i < r.sched.size(); i++ ) fprintf(f, "%s%d", i ? "," : "", r.sched[i]);
    fprintf(f, "]}");
}
static void writeOut() {
    if ( g_sst.disagree ) g_incon["engine failed: solvers disagree"]++;
    FILE* f = o_out.empty() ? stdout : fopen(o_out.c_str(), "w");
    struct rusage ru; getrusage(RUSAGE_SELF, &ru);
    fprintf(f, "{\"case\":%d,\"paths\":%lu,\"killed\":%lu,\"forks\":%lu,\"instr\":%lu,\"states\":%lu,\"asserts\":%lu,\"memchecks\":%lu,\"sched\":%lu,\"uninit\":%lu,\n", o_case, n_paths, n_killed, n_forks, n_instr, n_states, n_asserts, n_memchecks, n_sched, n_uninit);
    fprintf(f, "\"queries\":%lu,\"z3calls\":%lu,\"cvc5calls\":%lu,\"cachehits\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"bitcalls\":%lu,\"crosschecks\":%lu,\"liacalls\":%lu,\"solver_s\":%.3f,\"wall_s\":%.3f,\"rss_mb\":%ld,\n", g_sst.queries, g_sst.z3calls, g_sst.cvc5calls, g_sst.cacheHits, g_sst.sat, g_sst.unsat, g_sst.unknown, g_sst.bitcalls, g_sst.crosschecks, g_sst.liacalls, g_sst.time, now() - t_start, ru.ru_maxrss / 1024);
    fprintf(f, "\"reach\":{");
    bool first = true;
    for ( auto& p : g_reach ) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "},\n\"bounds\":{");
    first = true;
    for ( auto& p : g_bounds ) { fprintf(f, "%s\"%s\":%lu", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "},\n\"inconclusive\":[");
    first = true;
    for ( auto& p : g_incon ) { fprintf(f, "%s\"%s (x%lu)\"", first ? "" : ",", jesc(p.first).c_str(), p.second); first = false; }
    fprintf(f, "],\n\"ignored\":[");
    first = true;
    for ( auto& p : g_ignored ) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(p.first).c_str()); first = false; }
    fprintf(f, "],\n\"functions\":[");
    first = true;
    for ( auto& p : g_fis ) {
        FI* fi = p.second.get();
        if ( !fi->count ) continue;
        auto* sp = p.first->getSubprogram();
        if ( !sp ) continue;
        std::string file = sp->getFilename().str();
        if ( file.find("/repo/") == std::string::npos && file.find("src/sst/core") == std::string::npos ) continue;
        int st; char* dm = abi::__cxa_demangle(p.first->getName().str().c_str(), 0, 0, &st);
        size_t cov = 0;
        for ( auto c : fi->cov ) if ( c ) cov++;
        fprintf(f, "%s[\"%s\",\"%s\",%d,%zu,%zu]", first ? "" : ",\n", jesc(st == 0 ? dm : p.first->getName().str()).c_str(), jesc(file).c_str(), sp->getLine(), cov, fi->cov.size());
        free(dm);
        first = false;
    }
    fprintf(f, "],\n\"violations\":[");
    for ( size_t i = 0; i < g_viol.size(); i++ ) { if ( i ) fprintf(f, ",\n"); writeRec(f, g_viol[i]); }
    fprintf(f, "],\n\"samples\":[");
    for ( size_t i = 0; i < g_samples.size(); i++ ) { if ( i ) fprintf(f, ",\n"); writeRec(f, g_samples[i]); }
    fprintf(f, "]}\n");
    if ( f != stdout ) fclose(f);
}

static std::string o_file;
static void* mainThread(void*) {
    LLVMContext ctx;
    SMDiagnostic err;
    auto mod = parseIRFile(o_file, err, ctx);
    if ( !mod ) { err.print("symex", errs()); exit(3); }
    g_mod = mod.get();
    g_dl = &mod->getDataLayout();
    Solver solver;
    g_solver = &solver;
    if ( !o_out.empty() ) { auto p = o_out.rfind('/'); solver.smtDir = p == std::string::npos ? "." : o_out.substr(0, p); }
    setupBuiltins();
    State* init = new State();
    init->model = std::make_shared<Model>();
    // addresses
    for ( auto& F : *mod ) {
        if ( F.isIntrinsic() ) continue;
        Obj* o = new Obj(); o->size = 16; o->b.assign(16, 0); o->kind = K_FUNC; o->ro = true;
        uint32_t id = init->as.add(o);
        g_addr[&F] = addrOf(id);
        g_fnById[id] = &F;
    }
    for ( auto& G : mod->globals() ) {
        Obj* o = new Obj();
        uint64_t sz = G.getValueType()->isSized() ? (uint64_t)g_dl->getTypeAllocSize(G.getValueType()) : 8;
        if ( G.isDeclaration() && sz < 256 ) sz = 256;
        o->size = sz; o->b.assign(sz, 0); o->kind = G.isDeclaration() ? K_EXT : K_GLOBAL;
        o->nm = G.getName().data();
        uint32_t id = init->as.add(o);
        g_addr[&G] = addrOf(id);
        if ( G.isDeclaration() && G.getName().starts_with("_ZTI") && sz >= 16 ) {
            std::string tn = G.getName().substr(4).str();
            Obj* nm = new Obj(); nm->b.assign(tn.begin(), tn.end()); nm->b.push_back(0); nm->size = nm->b.size(); nm->kind = K_GLOBAL; nm->ro = true;
            uint64_t a = addrOf(init->as.add(nm));
            memcpy(&o->b[8], &a, 8);
        }
        if ( G.isDeclaration() || G.getName().starts_with("_ZTVN10__cxxabiv1") ) g_extById[id] = G.getName().str();
    }
    for ( auto& G : mod->globals() )
        if ( !G.isDeclaration() ) {
            Obj* o = init->as.getW(g_addr[&G] >> 32);
            initBytes(o, 0, G.getInitializer());
            o->ro = G.isConstant();
        }
    // constructors
    { Obj* o = new Obj(); o->size = 8; o->b.assign(8, 0); o->kind = K_GLOBAL; g_errnoObj = init->as.add(o); }
    init->th.emplace_back();
    std::vector<std::pair<uint32_t, const Function*>> ctors;
    if ( auto* gc = mod->getGlobalVariable("llvm.global_ctors") )
        if ( auto* arr = dyn_cast<ConstantArray>(gc->getInitializer()) )
            for ( auto& o : arr->operands() ) {
                auto* st = cast<ConstantStruct>(o);
                if ( auto* fn = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts()) )
                    ctors.push_back({ (uint32_t)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), fn });
            }
    std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
    g_inStatic = true;
    for ( auto& c : ctors ) {
        pushCall(*init, getFI(c.second), {}, -1);
        init->th[0].st = T_RUN;
        try { while ( true ) step(*init); }
        catch ( PathEnd& e ) {
            if ( e.k != E_OK ) {
                if ( o_verbose ) fprintf(stderr, "static constructor %s failed\n", c.second->getName().str().c_str());
                g_ignored["static constructor failed: " + c.second->getName().str()]++;
                g_viol.clear(); g_violCount.clear(); g_incon.clear();
                while ( !init->th[0].stack.empty() ) popFrame(*init);
            }
        }
    }
    g_inStatic = false;
    init->th[0].st = T_RUN;
    init->steps = 0;
    init->heapLive = 0;
    Function* hm = mod->getFunction("harness_main");
    if ( !hm || hm->isDeclaration() ) { fprintf(stderr, "no harness_main\n"); exit(3); }
    pushCall(*init, getFI(hm), {}, -1);
    n_states = 1;
    g_work.push_back(init);
    while ( !g_work.empty() ) {
        State* s = g_work.back();
        g_work.pop_back();
        runState(s);
        if ( now() - t_start > o_maxTime ) { g_incon["time budget exhausted"]++; break; }
        if ( (int)g_viol.size() >= o_maxViol * 3 ) { g_incon["stopped after many violations"]++; break; }
        static unsigned turns = 0;
        if ( (++turns & 63) == 0 && memFull() ) { g_incon["memory budget exhausted"]++; break; }
    }
    if ( !g_work.empty() && g_incon.empty() ) g_incon["unexplored states"]++;
    writeOut();
    fflush(stdout);
    _exit(0);
    return nullptr;
}

int main(int argc, char** argv) {
    t_start = now();
    for ( int i = 1; i < argc; i++ ) {
        std::string a = argv[i];
        if ( a == "--case" ) o_case = atoi(argv[++i]);
        else if ( a == "--tier" ) o_tier = atoi(argv[++i]);
        else if ( a == "--out" ) o_out = argv[++i];
        else if ( a == "--max-steps" ) o_maxSteps = strtoull(argv[++i], 0, 0);
        else if ( a == "--max-time" ) o_maxTime = atof(argv[++i]);
        else if ( a == "--samples" ) o_samples = atoi(argv[++i]);
        else if ( a == "--seed" ) g_rng.seed(strtoull(argv[++i], 0, 0));
        else if ( a == "-v" ) o_verbose = true;
        else o_file = a;
    }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2ull << 30);
    pthread_t t;
    pthread_create(&t, &at, mainThread, nullptr);
    pthread_join(t, nullptr);
    return 0;
}
