// @cases 1
// @reach end
#include "sym.h"
#include <map>
#include <vector>
#include <string>
#include <list>
#include <unordered_map>
#include <stdexcept>
#include <algorithm>
struct B { virtual ~B() {} virtual int f(int x) = 0; };
struct D1 : B { int f(int x) override { return x + 1; } };
struct D2 : B { int f(int x) override { if ( x == 7 ) throw std::out_of_range("seven"); return x * 2; } };
extern "C" int harness_main() {
    unsigned a = sym_u32("a"), b = sym_u32("b"), c = sym_u32("c");
    sym_assume(a < 20 && b < 20 && c < 20);
    std::map<unsigned, int> m;
    m[a] = 1; m[b] = 2; m[c] = 3;
    unsigned last = 0; bool first = true;
    for ( auto& p : m ) { SYM_ASSERT(first || p.first > last, "sorted"); last = p.first; first = false; }
    SYM_ASSERT(m.at(c) == 3, "last wins");
    std::vector<unsigned> v { a, b, c };
    std::sort(v.begin(), v.end());
    SYM_ASSERT(v[0] <= v[1] && v[1] <= v[2], "sort");
    std::string s = "x" + std::to_string(a);
    sym_log(s.size());
    std::unordered_map<std::string, int> um;
    um[s] = 5; um["x3"] = 6;
    SYM_ASSERT(um.at(s) == (a == 3 ? 6 : 5), "um");
    B* o = a < b ? (B*)new D1 : (B*)new D2;
    int r = 0;
    try { r = o->f(c); } catch ( const std::logic_error& e ) { r = -1; sym_log((uint64_t)e.what()[0]); }
    SYM_ASSERT((r == -1) == (a >= b && c == 7), "exc");
    SYM_ASSERT((dynamic_cast<D1*>(o) != nullptr) == (a < b), "dyn");
    delete o;
    double d = (double)a / 4.0;
    SYM_ASSERT(d * 4 == a, "fp");
    sym_log(r);
    sym_reach("end");
    return 0;
}
