// Weak stand-ins for peripheral services (registration with the class factories,
// pooled allocation).  A harness that lists the real source gets the real code.
#include "sst_config.h"
#include "sst/core/mempool.h"
#include "sst/core/eli/elementinfo.h"
#include "sst/core/serialization/serializable.h"
#include "sst/core/output.h"
#include <cstdlib>
#define WEAK __attribute__((weak))
#ifndef SYM_REAL_MEMPOOL
namespace SST::Core {
WEAK void* MemPoolItem::operator new(std::size_t n) noexcept { return malloc(n); }
WEAK void  MemPoolItem::operator delete(void* p) { free(p); }
WEAK std::string MemPoolItem::toString() const { return "item"; }
WEAK void MemPoolItem::print(const std::string&, Output&) const {}
}
#endif
namespace SST::Core::Serialization {
WEAK uint32_t serializable_factory::add_builder(serializable_builder*, const char*) { return 1; }
WEAK void serializable_base::serializable_abort(uint32_t, const char*, const char*, const char*) {}
}
namespace SST::ELI {
WEAK void ProvidesParams::init() {}
WEAK bool LoadedLibraries::addLoader(const std::string&, const std::string&, const std::string&, LibraryLoader*) { return true; }
}
WEAK double sst_get_cpu_time() { return 1.0; }
