// intrinsics and library models (included by exec.cc)
static void setDst(State& s, const DI& d, int k, Val v) { if ( d.dst >= 0 ) s.top().r[d.dst + k] = v; }

static void doMemcpy(State& s, const Val& D, const Val& S, const Val& N) {
    uint64_t n = forkVal(s, N, 64);
    if ( !n ) return;
    Ref rs {}, rd {};
    uint64_t da, sa;
    if ( S.e ) { rs = resolve(s, S, (uint32_t)n, false); sa = rs.so ? forkVal(s, S, 64) : addrOf(rs.id) + rs.off; } else sa = S.c;
    if ( D.e ) { rd = resolve(s, D, (uint32_t)n, true); da = rd.so ? forkVal(s, D, 64) : addrOf(rd.id) + rd.off; } else da = D.c;
    copyBytes(s, da, sa, n);
}

static void runIntrinsic(State& s, Frame& f, const DI& d, const Function* F, std::vector<Val>& a) {
    unsigned w = d.w;
    auto ret = [&](Val v) { setDst(s, d, 0, v); };
    auto E1 = [&](int i) { return toE(a[i], w); };
    switch ( F->getIntrinsicID() ) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume:
    case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation: break;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: case Intrinsic::returnaddress: case Intrinsic::frameaddress: ret(vc(0)); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::ptr_annotation: case Intrinsic::annotation: ret(a[0]); break;
    case Intrinsic::is_constant: ret(vc(0)); break;
    case Intrinsic::objectsize: ret(vc(~0ull & m64(w))); break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doMemcpy(s, a[0], a[1], a[2]); break;
    case Intrinsic::memset: {
        uint64_t n = forkVal(s, a[2], 64);
        if ( n ) setBytes(s, forkVal(s, a[0], 64), a[1], n);
        break;
    }
    case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
        auto id = F->getIntrinsicID();
        for ( int i = 0; i < d.n; i++ ) {
            E x = toE(a[i], w), y = toE(a[d.n + i], w);
            E c = (id == Intrinsic::umin || id == Intrinsic::umax) ? mkCmp(OUlt, x, y) : mkCmp(OSlt, x, y);
            setDst(s, d, i, vE((id == Intrinsic::umin || id == Intrinsic::smin) ? mkIte(c, x, y) : mkIte(c, y, x)));
        }
        break;
    }
    case Intrinsic::abs: { E x = E1(0); ret(vE(mkIte(mkCmp(OSlt, x, mkConst(0, w)), mkBin(OSub, mkConst(0, w), x), x))); break; }
    case Intrinsic::ctpop: {
        E x = E1(0), r = mkConst(0, w);
        for ( unsigned i = 0; i < w; i++ ) r = mkBin(OAdd, r, mkZExt(mkExtract(x, i, 1), w));
        ret(vE(r)); break;
    }
    case Intrinsic::ctlz: {
        E x = E1(0), r = mkConst(w, w);
        for ( unsigned i = 0; i < w; i++ ) r = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), r);
        ret(vE(r)); break;
    }
    case Intrinsic::cttz: {
        E x = E1(0), r = mkConst(w, w);
        for ( unsigned i = w; i-- > 0; ) r = mkIte(mkExtract(x, i, 1), mkConst(i, w), r);
        ret(vE(r)); break;
    }
    case Intrinsic::bswap: {
        E x = E1(0), r = mkExtract(x, 0, 8);
        for ( unsigned i = 8; i < w; i += 8 ) r = mkConcat(r, mkExtract(x, i, 8));
        ret(vE(r)); break;
    }
    case Intrinsic::bitreverse: {
        E x = E1(0), r = mkExtract(x, 0, 1);
        for ( unsigned i = 1; i < w; i++ ) r = mkConcat(r, mkExtract(x, i, 1));
        ret(vE(r)); break;
    }
    case Intrinsic::fshl: case Intrinsic::fshr: {
        uint64_t sh = forkVal(s, a[2], w) % w;
        E hi = E1(0), lo = E1(1);
        bool l = F->getIntrinsicID() == Intrinsic::fshl;
        if ( !sh ) ret(vE(l ? hi : lo));
        else if ( l ) ret(vE(mkConcat(mkExtract(hi, 0, w - sh), mkExtract(lo, w - sh, sh))));
        else ret(vE(mkConcat(mkExtract(hi, 0, sh), mkExtract(lo, sh, w - sh))));
        break;
    }
    case Intrinsic::uadd_with_overflow: { E x = E1(0), y = E1(1), r = mkBin(OAdd, x, y); setDst(s, d, 0, vE(r)); setDst(s, d, 1, vE(mkCmp(OUlt, r, x))); break; }
    case Intrinsic::usub_with_overflow: { E x = E1(0), y = E1(1); setDst(s, d, 0, vE(mkBin(OSub, x, y))); setDst(s, d, 1, vE(mkCmp(OUlt, x, y))); break; }
    case Intrinsic::umul_with_overflow: {
        if ( w > 64 ) incon(s, "umul.overflow wide");
        E p = mkBin(OMul, mkZExt(E1(0), 2 * w), mkZExt(E1(1), 2 * w));
        setDst(s, d, 0, vE(mkExtract(p, 0, w))); setDst(s, d, 1, vE(mkNot(mkCmp(OEq, mkExtract(p, w, w), mkConst(0, w))))); break;
    }
    case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
        auto id = F->getIntrinsicID();
        if ( w > 64 ) incon(s, "s*.overflow wide");
        unsigned ww = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1;
        Op op = id == Intrinsic::sadd_with_overflow ? OAdd : id == Intrinsic::ssub_with_overflow ? OSub : OMul;
        E p = mkBin(op, mkSExt(E1(0), ww), mkSExt(E1(1), ww));
        E r = mkExtract(p, 0, w);
        setDst(s, d, 0, vE(r)); setDst(s, d, 1, vE(mkNot(mkCmp(OEq, mkSExt(r, ww), p)))); break;
    }
    case Intrinsic::uadd_sat: { E x = E1(0), y = E1(1), r = mkBin(OAdd, x, y); ret(vE(mkIte(mkCmp(OUlt, r, x), mkConst(~(u128)0, w), r))); break; }
    case Intrinsic::usub_sat: { E x = E1(0), y = E1(1); ret(vE(mkIte(mkCmp(OUlt, x, y), mkConst(0, w), mkBin(OSub, x, y)))); break; }
    case Intrinsic::fabs: ret(vE(mkBin(OAnd, E1(0), mkConst(maskw(w - 1), w)))); break;
    case Intrinsic::floor: ret(vE(mkFUn(OFRint, E1(0), w, 1))); break;
    case Intrinsic::ceil: ret(vE(mkFUn(OFRint, E1(0), w, 2))); break;
    case Intrinsic::trunc: ret(vE(mkFUn(OFRint, E1(0), w, 3))); break;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: ret(vE(mkFUn(OFRint, E1(0), w, 0))); break;
    case Intrinsic::round: ret(vE(mkFUn(OFRint, E1(0), w, 4))); break;
    case Intrinsic::sqrt: ret(vE(mkFUn(OFSqrt, E1(0), w, 0))); break;
    case Intrinsic::fma: ret(vE(mkFma(E1(0), E1(1), E1(2)))); break;
    case Intrinsic::fmuladd: ret(vE(mkFBin(OFAdd, mkFBin(OFMul, E1(0), E1(1)), E1(2)))); break;
    case Intrinsic::copysign: ret(vE(mkBin(OOr, mkBin(OAnd, E1(0), mkConst(maskw(w - 1), w)), mkBin(OAnd, E1(1), mkConst((u128)1 << (w - 1), w))))); break;
    case Intrinsic::minnum: case Intrinsic::maxnum: {
        E x = E1(0), y = E1(1);
        E lt = F->getIntrinsicID() == Intrinsic::minnum ? mkFCmp(OFLt, x, y) : mkFCmp(OFLt, y, x);
        ret(vE(mkIte(mkFCmp(OFUno, x, x), y, mkIte(mkFCmp(OFUno, y, y), x, mkIte(lt, x, y))))); break;
    }
    case Intrinsic::is_fpclass: {
        unsigned test = (unsigned)a[1].c;
        unsigned fw = slotsOf(F->getArg(0)->getType())[0].w;
        E x = toE(a[0], fw);
        unsigned eb = fw == 64 ? 11 : 8, mb = fw - 1 - eb;
        E sign = mkExtract(x, fw - 1, 1), ex = mkExtract(x, mb, eb), man = mkExtract(x, 0, mb);
        E e0 = mkCmp(OEq, ex, mkConst(0, eb)), e1 = mkCmp(OEq, ex, mkConst(maskw(eb), eb)), m0 = mkCmp(OEq, man, mkConst(0, mb));
        E r = mkConst(0, 1), ns = mkNot(sign);
        auto add = [&](unsigned bit, E c) { if ( test & bit ) r = mkOrB(r, c); };
        E nan = mkAndB(e1, mkNot(m0));
        add(1, mkAndB(nan, mkNot(mkExtract(man, mb - 1, 1)))); add(2, mkAndB(nan, mkExtract(man, mb - 1, 1)));
        E inf = mkAndB(e1, m0); add(4, mkAndB(inf, sign)); add(512, mkAndB(inf, ns));
        E norm = mkAndB(mkNot(e0), mkNot(e1)); add(8, mkAndB(norm, sign)); add(256, mkAndB(norm, ns));
        E sub = mkAndB(e0, mkNot(m0)); add(16, mkAndB(sub, sign)); add(128, mkAndB(sub, ns));
        E z = mkAndB(e0, m0); add(32, mkAndB(z, sign)); add(64, mkAndB(z, ns));
        ret(vE(r)); break;
    }
    case Intrinsic::eh_typeid_for: ret(vc(a[0].c >> 32)); break;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violEnd(s, "abort", "trap");
    case Intrinsic::vastart: {
        Frame& fr = s.top();
        uint32_t id = allocObj(s, fr.va.size() * 8 + 8, K_STACK, false);
        fr.allocas.push_back(id);
        for ( size_t i = 0; i < fr.va.size(); i++ ) storeW(s, vc(addrOf(id) + 8 * i), 64, fr.va[i].e && fr.va[i].e->w < 64 ? vE(mkZExt(fr.va[i].e, 64)) : fr.va[i]);
        uint64_t p = a[0].c;
        storeW(s, vc(p), 32, vc(48)); storeW(s, vc(p + 4), 32, vc(176)); storeW(s, vc(p + 8), 64, vc(addrOf(id))); storeW(s, vc(p + 16), 64, vc(0));
        break;
    }
    case Intrinsic::vaend: break;
    case Intrinsic::vacopy: copyBytes(s, a[0].c, a[1].c, 24); break;
    case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
        Op op = F->getIntrinsicID() == Intrinsic::vector_reduce_add ? OAdd : F->getIntrinsicID() == Intrinsic::vector_reduce_or ? OOr : F->getIntrinsicID() == Intrinsic::vector_reduce_and ? OAnd : OXor;
        E r = toE(a[0], w);
        for ( size_t i = 1; i < a.size(); i++ ) r = mkBin(op, r, toE(a[i], w));
        ret(vE(r)); break;
    }
    default:
        if ( F->getName() == "llvm.x86.sse2.pause" ) { doPause(s, f); return; }
        incon(s, "intrinsic " + F->getName().str());
    }
    finishCall(s.top());
    (void)f;
}

// ---- generic helpers
static Val b_nop0(State&, Args&) { return vc(0); }
static Val b_arg0(State&, Args& a) { return a.v[0]; }
static Val b_alloc(State& s, Args& a) { return vc(addrOf(allocObj(s, forkVal(s, a.v[0], 64), K_HEAP, true))); }
static Val b_calloc(State& s, Args& a) { return vc(addrOf(allocObj(s, forkVal(s, a.v[0], 64) * forkVal(s, a.v[1], 64), K_HEAP, false))); }
static Val b_alalloc(State& s, Args& a) { return vc(addrOf(allocObj(s, forkVal(s, a.v[1], 64), K_HEAP, true))); }
static Val b_posix_memalign(State& s, Args& a) { storeW(s, a.v[0], 64, vc(addrOf(allocObj(s, forkVal(s, a.v[2], 64), K_HEAP, true)))); return vc(0); }
static Val b_realloc(State& s, Args& a) {
    uint64_t p = forkVal(s, a.v[0], 64), n = forkVal(s, a.v[1], 64);
    uint32_t id = allocObj(s, n, K_HEAP, true);
    if ( p ) { Obj* o = s.as.get(p >> 32); if ( o && !o->freed ) copyBytes(s, addrOf(id), p, std::min<uint64_t>(n, o->size)); freeObj(s, p, "realloc"); }
    return vc(addrOf(id));
}
static Val b_free(State& s, Args& a) { freeObj(s, forkVal(s, a.v[0], 64), "free/delete"); return vc(0); }
static Val b_mmap(State& s, Args& a) { return vc(addrOf(allocObj(s, forkVal(s, a.v[1], 64), K_HEAP, false))); }
static Val b_memcpy(State& s, Args& a) { doMemcpy(s, a.v[0], a.v[1], a.v[2]); return a.v[0]; }
static Val b_memset(State& s, Args& a) { uint64_t n = forkVal(s, a.v[2], 64); Val b = a.v[1].e ? vE(mkExtract(a.v[1].e, 0, 8)) : vc(a.v[1].c & 255); if ( n ) setBytes(s, forkVal(s, a.v[0], 64), b, n); return a.v[0]; }
static Val cmpBytes(State& s, uint64_t p, uint64_t q, uint64_t n, bool bcmp) {
    E r = mkConst(0, 32);
    std::vector<std::pair<E, E>> bs;
    bool allC = true;
    for ( uint64_t i = 0; i < n; i++ ) {
        Val x = loadW(s, vc(p + i), 8), y = loadW(s, vc(q + i), 8);
        if ( !x.e && !y.e ) { if ( allC && x.c != y.c ) return vc((uint32_t)(int32_t)(x.c < y.c ? -1 : 1)); }
        else allC = false;
        bs.push_back({ toE(x, 8), toE(y, 8) });
    }
    if ( allC ) return vc(0);
    if ( bcmp ) {
        E eq = mkConst(1, 1);
        for ( auto& b : bs ) eq = mkAndB(eq, mkCmp(OEq, b.first, b.second));
        return vE(mkIte(eq, mkConst(0, 32), mkConst(1, 32)));
    }
    for ( size_t i = bs.size(); i-- > 0; ) {
        E x = bs[i].first, y = bs[i].second;
        r = mkIte(mkCmp(OEq, x, y), r, mkIte(mkCmp(OUlt, x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
    }
    return vE(r);
}
static Val b_memcmp(State& s, Args& a) { uint64_t n = forkVal(s, a.v[2], 64); return cmpBytes(s, forkVal(s, a.v[0], 64), forkVal(s, a.v[1], 64), n, false); }
static Val b_bcmp(State& s, Args& a) { uint64_t n = forkVal(s, a.v[2], 64); return cmpBytes(s, forkVal(s, a.v[0], 64), forkVal(s, a.v[1], 64), n, true); }
static Val b_strlen(State& s, Args& a) {
    uint64_t p = forkVal(s, a.v[0], 64), n = 0;
    while ( true ) {
        Val v = loadW(s, vc(p + n), 8);
        if ( v.e ) { if ( decide(s, mkCmp(OEq, v.e, mkConst(0, 8))) ) break; }
        else if ( !v.c ) break;
        n++;
    }
    return vc(n);
}
static Val b_abort(State& s, Args& a) { violEnd(s, "abort", "abort() called"); }
static Val b_assertfail(State& s, Args& a) { violEnd(s, "abort", "assert() failed in code under test: " + rdStr(s, a.v[0])); }
static Val b_exit(State& s, Args& a) { violEnd(s, "abort", "exit() called"); }
static Val b_terminate(State& s, Args& a) { violEnd(s, "abort", "std::terminate called"); }
static Val b_purevirt(State& s, Args& a) { violEnd(s, "abort", "pure virtual call"); }
static Val b_ignore(State& s, Args& a) { g_ignored[a.cb->getCalledFunction() ? a.cb->getCalledFunction()->getName().str() : "?"]++; return vc(0); }
static Val b_ostream0(State& s, Args& a) { return a.v.empty() ? vc(0) : a.v[0]; }
// guards
static Val b_guard_acq(State& s, Args& a) { Val v = loadW(s, a.v[0], 8); return vc(v.c ? 0 : 1); }
static Val b_guard_rel(State& s, Args& a) { storeW(s, a.v[0], 8, vc(1)); return vc(0); }
// exceptions
static Val b_exc_alloc(State& s, Args& a) { uint32_t id = allocObj(s, forkVal(s, a.v[0], 64) + 32, K_HEAP, true); s.heapLive--; return vc(addrOf(id) + 32); }
static Val b_exc_free(State& s, Args& a) { return vc(0); }
static Val b_throw(State& s, Args& a) {
    uint64_t o = a.v[0].c;
    storeW(s, vc(o - 32), 64, a.v[1]); storeW(s, vc(o - 24), 64, a.v[2]); storeW(s, vc(o - 16), 64, vc(0));
    s.th[s.cur].excObj = o;
    unwind(s, true);
    g_ctl = true;
    return vc(0);
}
static Val b_rethrow(State& s, Args& a) {
    auto& t = s.th[s.cur];
    if ( t.caught.empty() ) violEnd(s, "abort", "rethrow without exception");
    t.excObj = t.caught.back().obj;
    unwind(s, true);
    g_ctl = true;
    return vc(0);
}
static Val b_begin_catch(State& s, Args& a) {
    uint64_t o = a.v[0].c;
    s.th[s.cur].caught.push_back({ o, 1 });
    uint64_t off = rdC(s, o - 16, 8);
    return vc(o + off);
}
static Val b_get_exc_ptr(State& s, Args& a) { return vc(a.v[0].c + rdC(s, a.v[0].c - 16, 8)); }
static Val b_end_catch(State& s, Args& a) { auto& c = s.th[s.cur].caught; if ( !c.empty() ) c.pop_back(); return vc(0); }
static Val b_uncaught(State& s, Args& a) { return vc(0); }
// dynamic_cast
static bool dcFind(State& s, uint64_t ti, uint64_t addr, uint64_t dst, std::vector<uint64_t>& hits) {
    if ( ti == dst ) { for ( auto h : hits ) if ( h == addr ) return true; hits.push_back(addr); return true; }
    std::string k = tiKind(s, ti);
    if ( k.find("__si_class") != std::string::npos ) return dcFind(s, rdC(s, ti + 16, 8), addr, dst, hits);
    if ( k.find("__vmi_class") != std::string::npos ) {
        uint32_t n = (uint32_t)rdC(s, ti + 20, 4);
        bool r = false;
        for ( uint32_t i = 0; i < n; i++ ) {
            uint64_t b = rdC(s, ti + 24 + 16 * i, 8);
            int64_t fl = (int64_t)rdC(s, ti + 32 + 16 * i, 8), o = fl >> 8;
            if ( fl & 1 ) o = (int64_t)rdC(s, rdC(s, addr, 8) + o, 8);
            r |= dcFind(s, b, addr + o, dst, hits);
        }
        return r;
    }
    return false;
}
static Val b_dyncast(State& s, Args& a) {
    uint64_t p = forkVal(s, a.v[0], 64);
    uint64_t vp = rdC(s, p, 8);
    int64_t top = (int64_t)rdC(s, vp - 16, 8);
    uint64_t ti = rdC(s, vp - 8, 8);
    std::vector<uint64_t> hits;
    dcFind(s, ti, p + top, a.v[2].c, hits);
    return vc(hits.size() == 1 ? hits[0] : 0);
}
static Val b_bad_cast(State& s, Args& a) { violEnd(s, "exception", "bad_cast"); }
static Val b_demangle(State& s, Args& a) {
    std::string n = rdStr(s, a.v[0]);
    int st; char* dm = abi::__cxa_demangle(n.c_str(), 0, 0, &st);
    if ( a.v[3].c ) storeW(s, a.v[3], 32, vc((uint32_t)st));
    if ( st != 0 ) return vc(0);
    uint32_t id = allocObj(s, strlen(dm) + 1, K_HEAP, false);
    memcpy(&s.as.getW(id)->b[0], dm, strlen(dm) + 1);
    free(dm);
    return vc(addrOf(id));
}
// ---- printf family into buffers
static std::string fmtImpl(State& s, const std::string& f, std::function<Val(bool)> next) {
    std::string out;
    for ( size_t i = 0; i < f.size(); ) {
        if ( f[i] != '%' ) { out += f[i++]; continue; }
        size_t j = i + 1;
        std::string spec = "%";
        int lng = 0;
        while ( j < f.size() && strchr("-+ #0123456789.*hlzjtL", f[j]) ) {
            if ( f[j] == '*' ) { Val v = next(false); spec += std::to_string((int)forkVal(s, v, 32)); }
            else if ( strchr("hlzjtL", f[j]) ) { if ( f[j] == 'l' || f[j] == 'z' || f[j] == 'j' || f[j] == 't' ) lng++; else if ( f[j] == 'h' ) lng--; }
            else spec += f[j];
            j++;
        }
        if ( j >= f.size() ) break;
        char c = f[j];
        char buf[512];
        if ( c == '%' ) out += '%';
        else if ( c == 's' ) {
            Val v = next(false);
            std::string str = (!v.e && v.c == 0) ? "(null)" : rdStr(s, v);
            std::vector<char> big(str.size() + 600);
            snprintf(big.data(), big.size(), (spec + "s").c_str(), str.c_str());
            out += big.data();
        } else if ( strchr("fFgGeEaA", c) ) {
            Val v = next(true);
            uint64_t u = forkVal(s, v, 64);
            double dd; memcpy(&dd, &u, 8);
            snprintf(buf, 512, (spec + c).c_str(), dd);
            out += buf;
        } else if ( c == 'p' ) { Val v = next(false); snprintf(buf, 512, "%p", (void*)forkVal(s, v, 64)); out += buf; }
        else if ( strchr("dicuxXo", c) ) {
            Val v = next(false);
            uint64_t u = forkVal(s, v, v.e ? v.e->w : 64);
            if ( c == 'c' ) { snprintf(buf, 512, (spec + "c").c_str(), (int)u); }
            else if ( lng >= 1 ) snprintf(buf, 512, (spec + "l" + c).c_str(), (long)u);
            else if ( lng == -1 ) snprintf(buf, 512, (spec + "h" + c).c_str(), (int)u);
            else if ( lng <= -2 ) snprintf(buf, 512, (spec + "hh" + c).c_str(), (int)u);
            else snprintf(buf, 512, (spec + c).c_str(), (int)u);
            out += buf;
        } else incon(s, "printf directive");
        i = j + 1;
    }
    return out;
}
static void putStr(State& s, const Val& dst, const std::string& r, uint64_t n) {
    if ( !n ) return;
    uint64_t k = std::min<uint64_t>(r.size(), n - 1), d = forkVal(s, dst, 64);
    for ( uint64_t i = 0; i < k; i++ ) storeW(s, vc(d + i), 8, vc((uint8_t)r[i]));
    storeW(s, vc(d + k), 8, vc(0));
}
static std::string fmtVar(State& s, Args& a, size_t fi) {
    size_t k = fi + 1;
    return fmtImpl(s, rdStr(s, a.v[fi]), [&](bool) { if ( k >= a.v.size() ) incon(s, "printf args"); return a.v[k++]; });
}
static std::string fmtVa(State& s, Args& a, size_t fi) {
    uint64_t va = forkVal(s, a.v[fi + 1], 64);
    return fmtImpl(s, rdStr(s, a.v[fi]), [&](bool) {
        uint64_t p = rdC(s, va + 8, 8);
        Val v = loadW(s, vc(p), 64);
        storeW(s, vc(va + 8), 64, vc(p + 8));
        return v;
    });
}
static Val b_snprintf(State& s, Args& a) { std::string r = fmtVar(s, a, 2); putStr(s, a.v[0], r, forkVal(s, a.v[1], 64)); return vc(r.size()); }
static Val b_sprintf(State& s, Args& a) { std::string r = fmtVar(s, a, 1); putStr(s, a.v[0], r, r.size() + 1); return vc(r.size()); }
static Val b_vsnprintf(State& s, Args& a) { std::string r = fmtVa(s, a, 2); putStr(s, a.v[0], r, forkVal(s, a.v[1], 64)); return vc(r.size()); }
static Val b_vsprintf(State& s, Args& a) { std::string r = fmtVa(s, a, 1); putStr(s, a.v[0], r, r.size() + 1); return vc(r.size()); }
static Val b_strtod(State& s, Args& a) {
    std::string t = rdStr(s, a.v[0]);
    char* e; double d = strtod(t.c_str(), &e);
    if ( a.v.size() > 1 && (a.v[1].e || a.v[1].c) ) storeW(s, a.v[1], 64, vc(a.v[0].c + (e - t.c_str())));
    uint64_t u; memcpy(&u, &d, 8);
    return vc(u);
}
static Val b_strtof(State& s, Args& a) {
    std::string t = rdStr(s, a.v[0]);
    char* e; float d = strtof(t.c_str(), &e);
    if ( a.v.size() > 1 && (a.v[1].e || a.v[1].c) ) storeW(s, a.v[1], 64, vc(a.v[0].c + (e - t.c_str())));
    uint32_t u; memcpy(&u, &d, 4);
    return vc(u);
}
// libm: concrete evaluated on the host; symbolic arguments give an unconstrained result
template <double (*FN)(double)>
static Val b_m1(State& s, Args& a) {
    if ( !a.v[0].e ) { double x; memcpy(&x, &a.v[0].c, 8); x = FN(x); uint64_t u; memcpy(&u, &x, 8); return vc(u); }
    g_ignored[std::string("libm on symbolic argument (unconstrained): ") + (a.cb->getCalledFunction() ? a.cb->getCalledFunction()->getName().str() : "")]++;
    return vE(mkVar("libm", 64));
}
static Val b_pow(State& s, Args& a) {
    if ( !a.v[0].e && !a.v[1].e ) { double x, y; memcpy(&x, &a.v[0].c, 8); memcpy(&y, &a.v[1].c, 8); x = pow(x, y); uint64_t u; memcpy(&u, &x, 8); return vc(u); }
    g_ignored["libm on symbolic argument (unconstrained): pow"]++;
    return vE(mkVar("libm_pow", 64));
}
static Val b_fmod(State& s, Args& a) { return vE(mkFBin(OFRem, toE(a.v[0], 64), toE(a.v[1], 64))); }
template <int MODE> static Val b_rnd(State& s, Args& a) { unsigned w = a.d->w; return vE(mkFUn(OFRint, toE(a.v[0], w), w, MODE)); }
static Val b_sqrt(State& s, Args& a) { return vE(mkFUn(OFSqrt, toE(a.v[0], a.d->w), a.d->w, 0)); }
static Val b_fabs(State& s, Args& a) { unsigned w = a.d->w; return vE(mkBin(OAnd, toE(a.v[0], w), mkConst(maskw(w - 1), w))); }
static Val b_lround(State& s, Args& a) { return vE(mkFUn(OFToSI, mkFUn(OFRint, toE(a.v[0], 64), 64, 4), 64, 0)); }
// time
static Val b_now(State& s, Args& a) { s.clock += 1000; return vc(s.clock); }
static Val b_gettimeofday(State& s, Args& a) { s.clock += 1; storeW(s, a.v[0], 64, vc(s.clock)); storeW(s, vc(a.v[0].c + 8), 64, vc(0)); return vc(0); }
static Val b_clock_gettime(State& s, Args& a) { s.clock += 1; storeW(s, a.v[1], 64, vc(s.clock)); storeW(s, vc(a.v[1].c + 8), 64, vc(0)); return vc(0); }
// errno
static uint32_t g_errnoObj = 0;
static Val b_errno(State& s, Args& a) { return vc(addrOf(g_errnoObj)); }
// ---- sym api
static Val b_sym_make(State& s, Args& a) {
    uint64_t p = forkVal(s, a.v[0], 64), n = forkVal(s, a.v[1], 64);
    std::string nm = rdStr(s, a.v[2]);
    InputRec r; r.name = strdup(nm.c_str()); r.size = (uint32_t)n;
    uint64_t o = 0; int part = 0;
    size_t idx = s.inputs.size();
    // deterministic reuse of variables across sibling paths: keyed by (position, name, part)
    static std::map<std::tuple<size_t, std::string, int, unsigned>, E> vars;
    while ( o < n ) {
        unsigned k = (unsigned)std::min<uint64_t>(8, n - o);
        if ( k != 8 && k != 4 && k != 2 && k != 1 ) k = 1;
        auto key = std::make_tuple(idx, nm, part, k);
        E& v = vars[key];
        if ( !v ) v = mkVar(nm + "#" + std::to_string(idx) + "." + std::to_string(part), k * 8);
        r.parts.push_back(v);
        storeW(s, vc(p + o), k * 8, vE(v));
        o += k; part++;
    }
    s.inputs.push_back(r);
    return vc(0);
}
static E asBool(const Val& v, unsigned w) { return mkNot(mkCmp(OEq, toE(v, w), mkConst(0, w))); }
static Val b_sym_assume(State& s, Args& a) { assume(s, asBool(a.v[0], 32)); return vc(0); }
static Val b_sym_assert(State& s, Args& a) {
    std::string m;
    E c = asBool(a.v[0], 32);
    if ( !isC(c) || !c->c ) m = rdStr(s, a.v[1]);
    assertE(s, c, "assert", m);
    return vc(0);
}
static Val b_sym_fail(State& s, Args& a) { violEnd(s, "assert", rdStr(s, a.v[0])); }
static Val b_sym_reach(State& s, Args& a) { g_reach[rdStr(s, a.v[0])]++; return vc(0); }
static Val b_sym_log(State& s, Args& a) { auto n = std::make_shared<LogNode>(); n->prev = s.log; n->v = a.v[0]; s.log = n; return vc(0); }
static Val b_sym_fork(State& s, Args& a) { return vc(forkVal(s, a.v[0], 64)); }
static Val b_sym_case(State& s, Args& a) { return vc(o_case); }
static Val b_sym_tier(State& s, Args& a) { return vc(o_tier); }
static Val b_sym_bound(State& s, Args& a) { g_bounds[rdStr(s, a.v[0])] = forkVal(s, a.v[1], 64); return vc(0); }
static Val b_sym_stop(State& s, Args& a) { throw PathEnd { E_OK }; }
static Val b_sym_heap(State& s, Args& a) { return vc(s.heapLive); }
static Val b_sym_spawn(State& s, Args& a) {
    auto it = g_fnById.find(a.v[0].c >> 32);
    if ( it == g_fnById.end() ) incon(s, "spawn of unknown function");
    Thread t;
    s.th.push_back(t);
    int old = s.cur;
    s.cur = s.th.size() - 1;
    pushCall(s, getFI(it->second), { a.v[1] }, -1);
    s.cur = old;
    return vc(0);
}
static Val b_sym_join(State& s, Args& a) {
    bool all = true;
    for ( size_t i = 1; i < s.th.size(); i++ ) if ( s.th[i].st != T_DONE ) all = false;
    if ( all ) return vc(0);
    // yield; the call is re-executed
    s.th[s.cur].st = T_JOIN;
    schedule(s, true); s.skipSched = true;
    g_ctl = true;
    return vc(0);
}
static Val b_sym_yield(State& s, Args& a) {
    if ( s.th.size() > 1 ) {
        int me = s.cur;
        finishCall(s.top());
        setYield(s);
        schedule(s, true); s.skipSched = true;
        g_ctl = true;
    }
    return vc(0);
}
static Val b_sym_schedpt(State& s, Args& a) { if ( schedPoint(s) ) g_ctl = true; return vc(0); }
static Val b_sym_schedmem(State& s, Args& a) {
    if ( s.th.size() < 2 ) return vc(0);
    if ( !a.v[0].e ) { Obj* o = s.as.get(a.v[0].c >> 32); if ( o && (o->kind == K_STACK || o->ro) ) return vc(0); }
    return b_sym_schedpt(s, a);
}
static Val b_sym_pause(State& s, Args& a) { finishCall(s.top()); g_ctl = true; doPause(s, s.top(), false); return vc(0); }
static Val b_sym_fair(State& s, Args& a) { s.fair = (int)a.v[0].c; return vc(0); }
static Val b_sym_preempt(State& s, Args& a) { s.preemptBound = (int)a.v[0].c; return vc(0); }

static void setupBuiltins() {
    auto& B = g_builtins;
    for ( const char* n : { "malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t", "_ZnwmSt11align_val_tRKSt9nothrow_t", "valloc", "pvalloc" } ) B[n] = b_alloc;
    B["calloc"] = b_calloc; B["aligned_alloc"] = b_alalloc; B["memalign"] = b_alalloc; B["posix_memalign"] = b_posix_memalign; B["realloc"] = b_realloc;
    for ( const char* n : { "free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvRKSt9nothrow_t", "_ZdaPvRKSt9nothrow_t", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t", "cfree" } ) B[n] = b_free;
    B["mmap"] = b_mmap; B["mmap64"] = b_mmap; B["munmap"] = b_nop0; B["mprotect"] = b_nop0; B["madvise"] = b_nop0; B["sysconf"] = [](State&, Args&) { return vc(4096); };
    B["getpagesize"] = [](State&, Args&) { return vc(4096); };
    B["memcpy"] = b_memcpy; B["memmove"] = b_memcpy; B["memset"] = b_memset; B["memcmp"] = b_memcmp; B["bcmp"] = b_bcmp; B["strlen"] = b_strlen;
    B["abort"] = b_abort; B["__assert_fail"] = b_assertfail; B["__assert"] = b_assertfail; B["exit"] = b_exit; B["_exit"] = b_exit; B["_ZSt9terminatev"] = b_terminate; B["__cxa_pure_virtual"] = b_purevirt; B["_ZSt21__glibcxx_assert_failPKciS0_S0_"] = b_abort;
    B["__clang_call_terminate"] = b_terminate; g_override["__clang_call_terminate"] = b_terminate;
    B["__cxa_call_unexpected"] = b_terminate;
    for ( const char* n : { "__cxa_atexit", "atexit", "printf", "fprintf", "vprintf", "vfprintf", "puts", "fputs", "fputc", "putc", "putchar", "fflush", "fwrite", "fclose", "perror", "syslog", "usleep", "nanosleep", "signal", "sigaction", "alarm", "setvbuf", "raise", "kill", "getpid", "gethostname", "sched_getcpu", "backtrace", "backtrace_symbols_fd", "isatty", "unlink", "access", "fileno", "setenv", "unsetenv", "_ZNSt8ios_base4InitC1Ev", "_ZNSt8ios_base4InitD1Ev", "getenv", "secure_getenv", "mlock", "sched_setaffinity" } ) B[n] = b_nop0;
    for ( const char* n : { "pthread_once", "pthread_key_create", "pthread_setspecific" } ) B[n] = b_nop0;
    B["pthread_self"] = [](State& s, Args&) { return vc(s.cur + 1); };
    B["sched_yield"] = b_sym_yield; B["nanosleep"] = b_sym_yield; B["clock_nanosleep"] = b_sym_yield;
    B["__cxa_guard_acquire"] = b_guard_acq; B["__cxa_guard_release"] = b_guard_rel; B["__cxa_guard_abort"] = b_nop0;
    B["__cxa_allocate_exception"] = b_exc_alloc; B["__cxa_free_exception"] = b_exc_free; B["__cxa_throw"] = b_throw; B["__cxa_rethrow"] = b_rethrow;
    B["__cxa_begin_catch"] = b_begin_catch; B["__cxa_end_catch"] = b_end_catch; B["__cxa_get_exception_ptr"] = b_get_exc_ptr;
    B["_ZSt18uncaught_exceptionv"] = b_uncaught; B["_ZSt19uncaught_exceptionsv"] = b_uncaught;
    B["__dynamic_cast"] = b_dyncast; B["__cxa_bad_cast"] = b_bad_cast; B["__cxa_bad_typeid"] = b_bad_cast; B["__cxa_demangle"] = b_demangle;
    B["snprintf"] = b_snprintf; B["sprintf"] = b_sprintf; B["vsnprintf"] = b_vsnprintf; B["vsprintf"] = b_vsprintf; B["strtod"] = b_strtod; B["strtof"] = b_strtof;
    B["log"] = b_m1<log>; B["exp"] = b_m1<exp>; B["cos"] = b_m1<cos>; B["sin"] = b_m1<sin>; B["log2"] = b_m1<log2>; B["log10"] = b_m1<log10>; B["exp2"] = b_m1<exp2>; B["tan"] = b_m1<tan>; B["atan"] = b_m1<atan>; B["cbrt"] = b_m1<cbrt>; B["expm1"] = b_m1<expm1>; B["log1p"] = b_m1<log1p>;
    B["pow"] = b_pow; B["fmod"] = b_fmod;
    B["floor"] = b_rnd<1>; B["ceil"] = b_rnd<2>; B["trunc"] = b_rnd<3>; B["rint"] = b_rnd<0>; B["nearbyint"] = b_rnd<0>; B["round"] = b_rnd<4>;
    B["floorf"] = b_rnd<1>; B["ceilf"] = b_rnd<2>; B["truncf"] = b_rnd<3>; B["rintf"] = b_rnd<0>; B["roundf"] = b_rnd<4>;
    B["sqrt"] = b_sqrt; B["sqrtf"] = b_sqrt; B["fabs"] = b_fabs; B["lround"] = b_lround; B["llround"] = b_lround;
    B["_ZNSt6chrono3_V212steady_clock3nowEv"] = b_now; B["_ZNSt6chrono3_V212system_clock3nowEv"] = b_now; B["time"] = b_now; B["clock"] = b_now; B["gettimeofday"] = b_gettimeofday; B["clock_gettime"] = b_clock_gettime;
    B["__errno_location"] = b_errno;
    auto& O = g_override;
    O["sym_make"] = b_sym_make; O["sym_assume"] = b_sym_assume; O["sym_assert"] = b_sym_assert; O["sym_fail"] = b_sym_fail; O["sym_reach"] = b_sym_reach; O["sym_log"] = b_sym_log; O["sym_fork"] = b_sym_fork;
    O["sym_case"] = b_sym_case; O["sym_tier"] = b_sym_tier; O["sym_native"] = b_nop0; O["sym_bound"] = b_sym_bound; O["sym_stop"] = b_sym_stop; O["sym_heap_live"] = b_sym_heap;
    O["sym_spawn"] = b_sym_spawn; O["sym_join_all"] = b_sym_join; O["sym_yield"] = b_sym_yield; O["sym_preempt_bound"] = b_sym_preempt; O["sym_fair"] = b_sym_fair; O["sym_schedpt"] = b_sym_schedpt; O["sym_schedmem"] = b_sym_schedmem; O["sym_pause"] = b_sym_pause;
}
