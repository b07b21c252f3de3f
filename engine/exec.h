#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <map>
#include <set>
#include <vector>
#include <memory>
#include <cstring>

struct Val { E e; uint64_t c; };
static inline Val vc(uint64_t c) { return Val { nullptr, c }; }
static inline uint64_t m64(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline Val vE(E e) {
    if ( isC(e) && e->w <= 64 ) return Val { nullptr, (uint64_t)e->c };
    return Val { e, 0 };
}
static inline E toE(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

static const uint64_t OBJ_BASE = 0x10000;
enum OKind : uint8_t { K_HEAP, K_STACK, K_GLOBAL, K_FUNC, K_EXT };
struct Obj {
    uint32_t             refc = 1;
    uint32_t             size = 0;
    OKind                kind = K_HEAP;
    bool                 ro   = false;
    bool                 freed = false;
    std::vector<uint8_t> b;
    std::vector<uint8_t> st;  // empty: all concrete; else 0 concrete 1 symbolic 2 uninit
    std::vector<E>       s;
    const char*          nm = nullptr;
    void ensureSt() { if ( st.empty() ) st.assign(size, 0); }
    void ensureS() { ensureSt(); if ( s.empty() ) s.assign(size, nullptr); }
};

struct Chunk { uint32_t refc = 1; Obj* o[64]; Chunk() { memset(o, 0, sizeof o); } };
// copy-on-write object table
struct AddrSpace {
    std::vector<Chunk*> ch;
    uint32_t            next = 1;
    AddrSpace() {}
    AddrSpace(const AddrSpace& a) : ch(a.ch), next(a.next) { for ( auto c : ch ) if ( c ) c->refc++; }
    AddrSpace& operator=(const AddrSpace&) = delete;
    ~AddrSpace() { for ( auto c : ch ) drop(c); }
    static void drop(Chunk* c) {
        if ( !c || --c->refc ) return;
        for ( auto o : c->o ) if ( o && --o->refc == 0 ) delete o;
        delete c;
    }
    inline Obj* get(uint64_t id) const {
        uint64_t i = id >> 6;
        if ( i >= ch.size() || !ch[i] ) return nullptr;
        return ch[i]->o[id & 63];
    }
    Chunk* wchunk(uint64_t i) {
        if ( i >= ch.size() ) ch.resize(i + 1, nullptr);
        Chunk*& c = ch[i];
        if ( !c ) c = new Chunk();
        else if ( c->refc > 1 ) {
            Chunk* n = new Chunk();
            for ( int k = 0; k < 64; k++ ) { n->o[k] = c->o[k]; if ( n->o[k] ) n->o[k]->refc++; }
            c->refc--;
            c = n;
        }
        return c;
    }
    Obj* getW(uint64_t id) {
        Chunk* c = wchunk(id >> 6);
        Obj*& o  = c->o[id & 63];
        if ( o && o->refc > 1 ) { Obj* n = new Obj(*o); n->refc = 1; o->refc--; o = n; }
        return o;
    }
    uint32_t add(Obj* o) {
        uint32_t id = next++;
        wchunk(id >> 6)->o[id & 63] = o;
        return id;
    }
    void remove(uint64_t id) {
        Chunk* c = wchunk(id >> 6);
        Obj*& o  = c->o[id & 63];
        if ( o && --o->refc == 0 ) delete o;
        o = nullptr;
    }
};

struct FI;
struct DI {
    uint16_t op = 0;
    uint8_t  sub = 0;
    uint8_t  fl = 0;
    uint16_t w = 0, w2 = 0;
    int32_t  dst = -1, n = 1;
    int32_t  a = 0, b = 0, c = 0;
    const llvm::Instruction* I = nullptr;
    std::vector<int32_t>  v;   // misc
    std::vector<int64_t>  x;   // misc
};
struct Edge { int target; std::vector<std::pair<int, int>> copies; };
struct SlotT { uint32_t off; uint16_t w; };
struct FI {
    llvm::Function*   F;
    int               nregs = 0;
    std::vector<Val>  pool;
    std::vector<DI>   code;
    std::vector<Edge> edges;
    std::vector<int>  argRegs, argSlots;
    uint64_t          count = 0;
    std::vector<uint8_t> cov;
};
struct Frame {
    FI*                   fi;
    int                   pc = 0;
    std::vector<Val>      r;
    std::vector<uint32_t> allocas;
    std::vector<Val>      va;
    int                   retDst = -1;
};
typedef std::shared_ptr<Frame> FrameP;
struct Caught { uint64_t obj; int count; };
enum TStat { T_RUN, T_YIELD, T_DONE, T_JOIN };
struct Thread {
    std::vector<FrameP> stack;
    TStat               st = T_RUN;
    uint64_t            yieldEpoch = 0;
    uint64_t            own = 0;         // this thread's share of the write epoch
    uint64_t            seen = 0;        // what the others had written when it last gave up the processor
    uint64_t            excObj = 0;      // in-flight exception
    std::vector<Caught> caught;
};
struct InputRec { const char* name; uint32_t size; std::vector<E> parts; };
struct LogNode { std::shared_ptr<LogNode> prev; Val v; };
struct State {
    std::vector<Thread> th;
    int                 cur = 0;
    AddrSpace           as;
    std::vector<E>      pc;
    ModelP              model;
    std::vector<InputRec> inputs;
    std::shared_ptr<LogNode> log;
    std::vector<uint8_t> sched;    // schedule decisions (thread ids) at scheduling points
    uint64_t            steps = 0;
    uint64_t            writeEpoch = 1;
    int                 preempts = 0;
    int                 preemptBound = 1000000;
    int                 fair = 0;        // visits of one scheduling point after which a thread that never switches has to
    std::vector<std::pair<const void*, int>> visits; // since the last switch
    bool                skipSched = false;
    uint64_t            heapLive = 0;
    uint64_t            clock = 1000;
    int                 depthForks = 0;
    int                 pauses = 0;
    Frame& top() {
        auto& f = th[cur].stack.back();
        if ( f.use_count() > 1 ) f = std::make_shared<Frame>(*f);
        return *f;
    }
};
