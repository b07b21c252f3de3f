#pragma once
#include "exec.h"
enum DOp : uint16_t { D_BIN, D_FBIN, D_FNEG, D_ICMP, D_FCMP, D_SELECT, D_TRUNC, D_ZEXT, D_SEXT, D_MOVE, D_BITCASTV, D_FUN, D_GEP, D_LOAD, D_STORE, D_ALLOCA, D_BR, D_CBR, D_SWITCH, D_CALL, D_ASM, D_RET, D_UNREACH, D_INSERT, D_EXTELT, D_INSELT, D_SHUF, D_LPAD, D_RESUME, D_RMW, D_CMPXCHG, D_FENCE, D_UNSUP };
struct Callee { const llvm::Function* F; FI* fi; int builtin; };
const std::vector<SlotT>& slotsOf(llvm::Type* t);
void decodeFunction(FI& fi);
uint64_t constAddr(const llvm::Constant* c);   // global / constexpr address value
Callee* resolveCallee(const llvm::Function* f);
