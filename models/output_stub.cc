// Stand-in for SST::Output (used where message output is not the subject):
// prints nothing; fatal() raises SymFatal so a harness can observe it.
#include "sst_config.h"
#include "sst/core/output.h"
#include "sym.h"
#include <cstdio>
#include <cstdlib>
static unsigned g_messages = 0;
void (*sym_fatal_hook)() = nullptr;   // called before the throw, for places where nothing may be thrown
unsigned sym_output_count() { return g_messages; }
namespace SST {
Output                                 Output::m_defaultObject;
std::string                            Output::m_sstGlobalSimFileName;
std::FILE*                             Output::m_sstGlobalSimFileHandle      = nullptr;
uint32_t                               Output::m_sstGlobalSimFileAccessCount = 0;
std::unordered_map<std::thread::id, uint32_t> Output::m_threadMap;
int                                    Output::m_worldSize_ranks = 1;
int                                    Output::m_worldSize_threads = 1;
int                                    Output::m_mpiRank = 0;
Output::Output(const std::string& prefix, uint32_t vl, uint32_t vm, output_location_t loc, const std::string& lf)
{ init(prefix, vl, vm, loc, lf); }
Output::Output() : m_objInitialized(false), m_verboseLevel(0), m_verboseMask(0), m_targetLoc(NONE), m_targetOutputRef(nullptr) {}
Output::Output(const Output& o) : Output() { *this = o; }
Output& Output::operator=(const Output& o)
{ if ( this != &o ) { m_objInitialized = o.m_objInitialized; m_outputPrefix = o.m_outputPrefix; m_verboseLevel = o.m_verboseLevel; m_verboseMask = o.m_verboseMask; m_targetLoc = o.m_targetLoc; m_targetOutputRef = nullptr; } return *this; }
Output::~Output() {}
void Output::init(const std::string& prefix, uint32_t vl, uint32_t vm, output_location_t loc, const std::string&)
{ m_objInitialized = true; m_outputPrefix = prefix; m_verboseLevel = vl; m_verboseMask = vm; m_targetLoc = loc; m_targetOutputRef = nullptr; }
void Output::fatal(uint32_t, const char*, const char*, int code, const char*, ...) const { if ( sym_fatal_hook ) sym_fatal_hook(); throw SymFatal { code }; }
void Output::setPrefix(const std::string& p) { m_outputPrefix = p; }
std::string Output::getPrefix() const { return m_outputPrefix; }
void Output::setVerboseMask(uint32_t m) { m_verboseMask = m; }
uint32_t Output::getVerboseMask() const { return m_verboseMask; }
void Output::setVerboseLevel(uint32_t l) { m_verboseLevel = l; }
uint32_t Output::getVerboseLevel() const { return m_verboseLevel; }
void Output::setOutputLocation(output_location_t l) { m_targetLoc = l; }
Output::output_location_t Output::getOutputLocation() const { return m_targetLoc; }
void Output::setFileName(const std::string&) {}
void Output::outputprintf(uint32_t, const std::string&, const std::string&, const char*, va_list) const { g_messages++; }
void Output::outputprintf(const char*, va_list) const { g_messages++; }
TraceFunction::TraceFunction(uint32_t, const char*, const char*, bool, bool) : output_obj_(Output::getDefaultObject()), line_(0) {}
TraceFunction::~TraceFunction() {}
void TraceFunction::output(const char*, ...) const {}
}
