// Native replay runtime: feeds one solver-produced assignment to a harness
// compiled against the real sources.  Exit codes: 0 path completed, 10 a
// harness assertion failed, 77 the replay diverged from the recorded path.
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
struct In { std::string name; std::string hex; };
static std::vector<In> ins;
static size_t pos = 0;
static int g_case = 0, g_tier = 0;
std::vector<int> g_sched;
[[noreturn]] static void diverge(const char* w) { printf("DIVERGED %s\n", w); fflush(stdout); _exit(77); }
extern "C" {
void sym_make(void* p, size_t n, const char* name) {
    if ( pos >= ins.size() ) {
        // past the recorded inputs: unconstrained, any value will do
        memset(p, 0, n);
        return;
    }
    In& i = ins[pos++];
    if ( i.name != name || i.hex.size() != 2 * n ) diverge(name);
    for ( size_t k = 0; k < n; k++ ) { unsigned v; sscanf(i.hex.c_str() + 2 * k, "%2x", &v); ((unsigned char*)p)[k] = (unsigned char)v; }
}
void sym_assume(int c) { if ( !c ) diverge("assume"); }
void sym_assert(int c, const char* m) { if ( !c ) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _exit(10); } }
void sym_fail(const char* m) { printf("ASSERT-FAILED %s\n", m); fflush(stdout); _exit(10); }
void sym_reach(const char*) {}
void sym_log(uint64_t v) { printf("LOG %lx\n", (unsigned long)v); }
uint64_t sym_fork(uint64_t v) { return v; }
int sym_case() { return g_case; }
int sym_tier() { return g_tier; }
int sym_native() { return 1; }
void sym_bound(const char*, uint64_t) {}
void sym_stop() { printf("DONE\n"); fflush(stdout); _exit(0); }
uint64_t sym_heap_live() { return 0; }
#ifndef SYM_THREADS
void sym_spawn(void (*fn)(void*), void* a) { fn(a); }
void sym_join_all() {}
void sym_yield() {}
void sym_preempt_bound(int) {}
void sym_fair(int) {}
#endif
}
#include <setjmp.h>
#include <signal.h>
extern "C" { extern void (*__start_sym_ctors[])() __attribute__((weak)); extern void (*__stop_sym_ctors[])() __attribute__((weak)); }
static sigjmp_buf jb;
static void onsig(int) { siglongjmp(jb, 1); }
__attribute__((no_sanitize("address"))) static void runCtors() {
    struct sigaction sa, o1, o2;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = onsig;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGSEGV, &sa, &o1);
    sigaction(SIGBUS, &sa, &o2);
    for ( void (**p)() = __start_sym_ctors; p != __stop_sym_ctors; p++ ) {
        if ( !*p ) continue;
        if ( sigsetjmp(jb, 1) == 0 ) { try { (*p)(); } catch ( ... ) {} }
    }
    sigaction(SIGSEGV, &o1, nullptr);
    sigaction(SIGBUS, &o2, nullptr);
}
static void onterm() { printf("TERMINATE uncaught exception\n"); fflush(stdout); _exit(11); }
int main(int argc, char** argv) {
    FILE* f = fopen(argv[1], "r");
    if ( !f ) return 3;
    char line[65536];
    while ( fgets(line, sizeof line, f) ) {
        char nm[512]; static char hex[65536]; int v;
        if ( sscanf(line, "CASE %d", &v) == 1 ) g_case = v;
        else if ( sscanf(line, "TIER %d", &v) == 1 ) g_tier = v;
        else if ( sscanf(line, "SCHED %d", &v) == 1 ) g_sched.push_back(v);
        else if ( sscanf(line, "IN %511s %65535s", nm, hex) == 2 ) ins.push_back({ nm, hex });
    }
    fclose(f);
    std::set_terminate(onterm);
    runCtors();
    printf("START\n"); fflush(stdout);
    harness_main();
    printf("DONE\n");
    fflush(stdout);
    _exit(0);
}
