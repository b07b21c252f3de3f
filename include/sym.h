// Harness API.  The same harness is compiled (a) to LLVM bitcode and executed
// symbolically by /verif/engine, and (b) natively (g++/clang, ASan) for replay.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>
extern "C" {
void     sym_make(void* p, size_t n, const char* name);   // make n bytes symbolic
void     sym_assume(int c);
void     sym_assert(int c, const char* msg);
void     sym_fail(const char* msg) __attribute__((noreturn));
void     sym_reach(const char* marker);                   // reachability witness
void     sym_log(uint64_t v);                             // trace value
uint64_t sym_fork(uint64_t v);                            // concretise by forking over all values
int      sym_case();                                      // which sub-case of the harness
int      sym_tier();                                      // 0 quick, 1 thorough
int      sym_native();                                    // 1 in the native replay
void     sym_bound(const char* name, uint64_t v);         // record a bound in the evidence
void     sym_stop();                                      // end this path successfully
uint64_t sym_heap_live();                                 // number of live heap objects (engine); 0 natively
void     sym_spawn(void (*fn)(void*), void* arg);         // threads
void     sym_join_all();
void     sym_yield();
void     sym_preempt_bound(int n);
void     sym_fair(int n); // threads that wait in a loop without a hint give up the processor after n turns
void     sym_schedpt();                                   // scheduling points, inserted by engine/instr.cc
void     sym_schedmem(void* p);
void     sym_pause();
int      harness_main();
}
static inline uint64_t sym_u64(const char* n) { uint64_t v; sym_make(&v, 8, n); return v; }
static inline int64_t  sym_i64(const char* n) { int64_t v; sym_make(&v, 8, n); return v; }
static inline uint32_t sym_u32(const char* n) { uint32_t v; sym_make(&v, 4, n); return v; }
static inline int32_t  sym_i32(const char* n) { int32_t v; sym_make(&v, 4, n); return v; }
static inline uint16_t sym_u16(const char* n) { uint16_t v; sym_make(&v, 2, n); return v; }
static inline uint8_t  sym_u8(const char* n) { uint8_t v; sym_make(&v, 1, n); return v; }
static inline bool     sym_bool(const char* n) { uint8_t v; sym_make(&v, 1, n); return (v & 1) != 0; }
static inline double   sym_f64(const char* n) { double v; sym_make(&v, 8, n); return v; }
static inline float    sym_f32(const char* n) { float v; sym_make(&v, 4, n); return v; }
static inline uint64_t sym_range(uint64_t lo, uint64_t hi, const char* n) { uint64_t v = sym_u64(n); sym_assume(v >= lo && v <= hi); return v; }
// n-bit unsigned value
static inline uint64_t sym_bits(unsigned n, const char* nm) { uint64_t v; sym_make(&v, 8, nm); return n >= 64 ? v : v & ((1ull << n) - 1); }
static inline unsigned sym_choose(unsigned k, const char* n) { uint32_t v = sym_u32(n); sym_assume(v < k); return (unsigned)sym_fork(v); }
static inline bool     sym_flag(const char* n) { return sym_choose(2, n) == 1; }
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
#define SYM_ASSERT(c, msg) sym_assert((c) ? 1 : 0, msg " [" SYM_STR(__LINE__) "]")
struct SymFatal { int code; };   // thrown by the Output::fatal stub
