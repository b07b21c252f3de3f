// Output objects: a message appears exactly when the level and mask admit it, once, at the chosen place, with the expanded prefix.
// @cases 8
// @stubs
// @sources simulation.cc timeVortex.cc action.cc exit.cc impl/oneshotManager.cc timeLord.cc
// @flags -DSYM_REAL_OUTPUT
// @reach shown hidden file prefix fatal copied
// @bounds verbosity levels and masks arbitrary 32-bit; locations none, stdout, stderr, global and local file; prefixes of up to 3 pieces from all documented escapes, unknown escapes, '@' at the end and '%'; 1 and several ranks and threads; up to 5 (thorough 6) operations on 3 objects (create, copy, assign, destroy, change of location, write)
// @outside what the C library prints for a format; failing fopen
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
#include <execinfo.h>
#include "simfix.h"
// the files of the run, in memory
namespace {
struct F { std::FILE* h; std::string name; bool open; };
std::vector<F>* files; std::FILE *my_out, *my_err;
std::FILE* newHandle() { return sym_native() ? fopen("/dev/null", "w") : (std::FILE*)malloc(8); }   // only its identity matters
F* file(std::FILE* h) { for ( auto& f : *files ) if ( f.h == h ) return &f; return nullptr; }
void setup() { files = new std::vector<F>(); files->reserve(64); my_out = newHandle(); my_err = newHandle(); files->push_back({ my_out, "<stdout>", true }); files->push_back({ my_err, "<stderr>", true }); }
std::map<std::string, std::string>* disk; bool misuse = false; int exited = -1; bool emergency = false;
}
struct Ended {};
namespace SST { [[noreturn]] static void my_exit(int c) { exited = c; throw Ended(); } }
static int my_write(std::FILE* h, const char* p, size_t n) { F* f = file(h); if ( !f || !f->open ) { misuse = true; return -1; } (*disk)[f->name].append(p, n); return (int)n; }
static int my_vfprintf(std::FILE* h, const char* fmt, va_list a) { char buf[256]; int n = vsnprintf(buf, sizeof buf, fmt, a); return my_write(h, buf, n); }
static int my_fprintf(std::FILE* h, const char* fmt, ...) { va_list a; va_start(a, fmt); int n = my_vfprintf(h, fmt, a); va_end(a); return n; }
static int my_fputs(const char* s, std::FILE* h) { return my_write(h, s, strlen(s)); }
static std::FILE* my_fopen(const char* n, const char* m) { files->push_back({ newHandle(), n, true }); if ( m[0] == 'w' ) (*disk)[n] = ""; return files->back().h; }
static int my_fclose(std::FILE* h) { F* f = file(h); if ( !f || !f->open ) misuse = true; else f->open = false; return 0; }
static int my_fflush(std::FILE* h) { F* f = file(h); if ( f && !f->open ) misuse = true; return 0; }
static int my_backtrace(void**, int) { return 0; }
static char** my_backtrace_symbols(void* const*, int) { return nullptr; }
static void my_emergency() { emergency = true; }
namespace std { using ::my_vfprintf; using ::my_fprintf; using ::my_fflush; using ::my_fopen; using ::my_fclose; using ::my_fputs; }
#define vfprintf my_vfprintf
#define fprintf my_fprintf
#define fopen my_fopen
#define fclose my_fclose
#define fflush my_fflush
#define fputs my_fputs
#define SST_Exit my_exit
#define backtrace my_backtrace
#define backtrace_symbols my_backtrace_symbols
#undef stdout
#undef stderr
#define stdout my_out
#define stderr my_err
#include "sst/core/output.cc"
#undef stdout
#undef stderr
#undef vfprintf
#undef fprintf
#undef fopen
#undef fclose
#undef fflush
#undef fputs
#undef SST_Exit
#undef backtrace
#undef backtrace_symbols
using namespace SST;
namespace {
std::string at(const char* n) { return disk->count(n) ? (*disk)[n] : std::string(); }
const char* NAMES[] = { "<stdout>", "<stderr>", "glob", "loc0", "loc1", "loc2" };
std::map<std::string, std::string>* want;
void same(const char* msg)
{
    SYM_ASSERT(!misuse, "a file is used after it was closed");
    for ( auto* n : NAMES ) { auto w = want->find(n); SYM_ASSERT(at(n) == (w == want->end() ? std::string() : w->second), "a message is missing, repeated or in the wrong place"); }
    (void)msg;
}
Output::output_location_t LOC[] = { Output::NONE, Output::STDOUT, Output::STDERR, Output::FILE };
void say(Output& o, const char* t) { o.output("%s", t); }
}
extern "C" int harness_main()
{
    int c = sym_case(), th = sym_tier();
    setup(); SST::Output::getDefaultObject() = SST::Output();
    disk = new std::map<std::string, std::string>(); want = new std::map<std::string, std::string>();
    Simulation* sim = mkSim(nullptr, 42);
    (void)sim;
    Output::m_sstGlobalSimFileName = "glob"; Output::m_mpiRank = 0; Output::m_worldSize_ranks = 1; Output::m_worldSize_threads = 1;
    Output::m_threadMap[std::this_thread::get_id()] = 0;
    if ( c == 0 ) {          // level and mask
        uint32_t lvl = sym_u32("level"), mask = sym_u32("mask"), l = sym_u32("l"), b = sym_u32("b"); int loc = sym_choose(4, "loc"), set = sym_flag("set");
        Output* o = set ? new Output("p", sym_u32("x"), sym_u32("x"), LOC[loc]) : new Output("p", lvl, mask, LOC[loc]);
        if ( set ) { o->setVerboseLevel(lvl); o->setVerboseMask(mask); }
        SYM_ASSERT(o->getVerboseLevel() == lvl && o->getVerboseMask() == mask && o->getOutputLocation() == LOC[loc] && o->getPrefix() == "p", "getters return what was set");
        int how = sym_choose(3, "how");
        if ( how == 0 ) o->verbose(1, "f", "g", l, b, "m%d", 7);
        else if ( how == 1 ) { o->verbosePrefix("q", 1, "f", "g", l, b, "m%d", 7); SYM_ASSERT(o->getPrefix() == "p", "the prefix for one call does not stay"); }
        else o->debug(1, "f", "g", l, b, "m%d", 7);
#ifndef __SST_DEBUG_OUTPUT__
        bool dbg = false;
#else
        bool dbg = true;
#endif
        bool show = (l <= lvl) & ((b & ~mask) == 0); if ( how == 2 && !dbg ) show = false;
        if ( show && loc ) { (*want)[loc == 3 ? "glob" : NAMES[loc - 1]] = how == 1 ? "qm7" : "pm7"; sym_reach("shown"); } else sym_reach("hidden");
        same("level");
        Output u; u.setVerboseLevel(lvl); u.verbose(1, "f", "g", 0, 0, "x"); u.output("x"); u.output(1, "f", "g", "x"); same("uninitialised");
        u.init("z", lvl, mask, Output::STDOUT); u.init("y", 0, 0, Output::STDERR); u.output(1, "f", "g", "x"); (*want)["<stdout>"] += "zx"; same("init once");
        delete o; same("end");
    } else if ( c <= 2 ) {   // prefix
        static const char* P[] = { "", "a", "@f", "@l", "@p", "@r", "@R", "@i", "@I", "@x", "@X", "@t", "@z", "@", "@@", "%d", "%%", "%s", " " };
        int R = sym_flag("ranks") ? 3 : 1, T = sym_flag("threads") ? 2 : 1, me = R > 1 ? 2 : 0, mt = T > 1 ? 1 : 0;
        Output::setWorldSize(R, T, me); Output::m_threadMap.clear(); Output::setThreadID(std::this_thread::get_id(), mt);
        std::string pre, ex;
        int n = 1 + (c == 2 ? 1 : 0) + (th && c == 2 ? 1 : 0);
        auto text = [&](const std::string& p) {
            std::string e;
            for ( size_t i = 0; i < p.size(); i++ ) {
                if ( p[i] != '@' || i + 1 >= p.size() ) { e += p[i]; continue; }
                std::string rk = std::to_string(me), tk = std::to_string(mt);
                switch ( p[i + 1] ) {
                case 'f': e += "file.cc"; break;
                case 'l': e += "77"; break;
                case 'p': e += "operator%s"; break;
                case 'r': if ( R > 1 ) e += rk; break;
                case 'R': e += rk; break;
                case 'i': if ( T > 1 ) e += tk; break;
                case 'I': e += tk; break;
                case 'x': if ( R > 1 || T > 1 ) e += "[" + rk + ":" + tk + "]"; break;
                case 'X': e += "[" + rk + ":" + tk + "]"; break;
                case 't': e += "42"; break;
                default: e += "@"; continue;
                }
                i++;
            }
            return e;
        };
        for ( int i = 0; i < n; i++ ) pre += P[sym_choose(19, "piece")];
        bool set = sym_flag("set");
        Output o(set ? "old@f" : pre, 1, 0, Output::STDOUT);
        if ( set ) o.setPrefix(pre);
        int how = sym_choose(3, "how");
        if ( how == 0 ) o.output(77, "file.cc", "operator%s", "m%d", 5); else if ( how == 1 ) o.verbose(77, "file.cc", "operator%s", 1, 0, "m%d", 5); else o.verbosePrefix(pre.c_str(), 77, "file.cc", "operator%s", 1, 0, "m%d", 5);
        (*want)["<stdout>"] = text(pre) + "m5"; same("prefix"); o.output("n"); (*want)["<stdout>"] += "n"; same("without prefix");
        sym_reach("prefix");
    } else if ( c == 3 ) {   // fatal
        int loc = sym_choose(5, "loc"), code = (int)sym_choose(200, "code"); if ( code > 3 ) code = (int)sym_u8("exit");
        Output* o = loc == 4 ? new Output() : new Output("p@l:", sym_u32("lvl"), sym_u32("mask"), LOC[loc]);
        bool end = false;
        try { o->fatal(12, "f", "g", code, "bad %d\n", 3); } catch ( Ended& ) { end = true; }
        SYM_ASSERT(end && exited == code, "fatal ends the run with the exit code given");
        std::string m = loc == 4 ? "FATAL: bad 3\n" : "FATAL: p12:bad 3\n", e = at("<stderr>");
        SYM_ASSERT(e.compare(0, m.size(), m) == 0 && e.find("FATAL:", 1) == std::string::npos, "a fatal message is printed once to the error output, whatever the levels and location");
        if ( loc == 3 ) SYM_ASSERT(at("glob") == m, "a fatal message also goes to the file"); 
        SYM_ASSERT(!misuse, "a file is used after it was closed");
        sym_reach("fatal");
    } else {                 // objects that come, go, are copied and change their location
        struct Slot { Output* o; int loc; bool init; std::string pre; int file; } s[3];
        for ( auto& x : s ) x = { nullptr, 0, false, "", 0 };
        int R = c == 5 ? 2 : 1; Output::setWorldSize(R, 1, R - 1);
        auto fileName = [&](int k) { return std::string(k == 0 ? "glob" : k == 1 ? "loc0" : "loc1") + (R > 1 ? "1" : ""); };
        int N = 4 + (th ? 1 : 0), made = 0, num = 0;
        for ( int i = 0; i < N; i++ ) {
            int k = sym_choose(made < 2 ? made + 1 : 2, "slot");
            if ( k == made ) made++;
            Slot& x = s[k];
            if ( !x.o ) {
                int from = i == 0 ? 0 : sym_choose(c == 6 ? 2 : 3, "from");
                if ( from == 2 && s[1 - k].o ) { Slot& y = s[1 - k]; x = y; x.o = new Output(*y.o); sym_reach("copied"); }
                else {
                    x.init = !(c == 7 && sym_flag("raw")); x.file = sym_choose(c == 4 ? 3 : 2, "file"); x.loc = x.init ? (c == 4 ? 3 : 1 + 2 * sym_choose(2, "loc")) : 0; x.pre = std::to_string(k);
                    if ( x.init ) x.o = new Output(x.pre, 0, 0, LOC[x.loc], x.file == 0 ? "" : x.file == 1 ? "loc0" : "loc1");
                    else { x.o = new Output(); x.pre = ""; }
                }
            } else {
                int op = sym_choose(4, "op");
                if ( op == 0 ) { delete x.o; x.o = nullptr; }
                else if ( op == 1 && x.init ) { x.loc = sym_choose(c == 6 ? 4 : 2, "loc") + (c == 6 ? 0 : 2); x.o->setOutputLocation(LOC[x.loc]); }
                else if ( op == 2 && s[1 - k].o ) { *x.o = *s[1 - k].o; Output* keep = x.o; x = s[1 - k]; x.o = keep; sym_reach("copied"); }
                else if ( op == 3 ) { *x.o = *x.o; }
                else sym_stop();
            }
            for ( int j = 0; j < 2; j++ ) if ( s[j].o ) {
                std::string t = std::to_string(num++) + ";";
                s[j].o->output(1, "f", "g", "%s", t.c_str());
                SYM_ASSERT(s[j].o->getPrefix() == s[j].pre && (!s[j].init || s[j].o->getOutputLocation() == LOC[s[j].loc]), "an object keeps its prefix and location, also in copies");
                if ( s[j].init && s[j].loc ) (*want)[s[j].loc == 3 ? fileName(s[j].file) : NAMES[s[j].loc - 1]] += s[j].pre + t;
                if ( s[j].loc == 3 ) sym_reach("file");
            }
            SYM_ASSERT(!misuse, "a file is used after it was closed");
            for ( auto& w : *want ) SYM_ASSERT(at(w.first.c_str()) == w.second, "a message is missing, repeated or in the wrong place");
            for ( auto& d : *disk ) SYM_ASSERT(want->count(d.first) ? true : d.second.empty(), "a message is in the wrong place");
        }
        for ( auto& x : s ) delete x.o;
        SYM_ASSERT(!misuse, "a file is used after it was closed");
        for ( size_t i = 2; i < files->size(); i++ ) SYM_ASSERT(!(*files)[i].open, "files are closed with the last object that writes to them");
    }
    return 0;
}
