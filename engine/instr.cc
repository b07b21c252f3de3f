// Marks the scheduling points of a program for the thread harnesses: a call to sym_schedpt() before every atomic or
// volatile access (with --races: sym_schedmem(address) before every plain access that may be shared), and sym_pause()
// in place of spin-wait hints.  The marked module is what the engine executes and what the native replay is built from,
// so a recorded schedule means the same thing in both.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
using namespace llvm;
int main(int argc, char** argv)
{
    bool races = false; const char* in = nullptr; const char* out = nullptr;
    for ( int i = 1; i < argc; i++ ) if ( !strcmp(argv[i], "--races") ) races = true; else if ( !in ) in = argv[i]; else out = argv[i];
    if ( !out ) return 2;
    LLVMContext C; SMDiagnostic E;
    auto M = parseIRFile(in, E, C);
    if ( !M ) { E.print("instr", errs()); return 1; }
    auto* V = Type::getVoidTy(C); auto* P = PointerType::get(C, 0);
    FunctionCallee pt = M->getOrInsertFunction("sym_schedpt", V), mem = M->getOrInsertFunction("sym_schedmem", V, P), pause = M->getOrInsertFunction("sym_pause", V);
    auto mark = [&](Instruction* I, FunctionCallee f, std::vector<Value*> a) { auto* c = CallInst::Create(f, a, "", I); c->setDebugLoc(I->getDebugLoc()); return c; };
    for ( auto& F : *M ) {
        if ( F.isDeclaration() ) continue;
        F.addFnAttr(Attribute::SanitizeAddress);   // for the native replay
        std::vector<Instruction*> is;
        for ( auto& B : F ) for ( auto& I : B ) is.push_back(&I);
        for ( auto* I : is ) {
            Value* p = nullptr; bool at = false;
            if ( auto* L = dyn_cast<LoadInst>(I) ) { p = L->getPointerOperand(); at = L->isAtomic() || L->isVolatile(); }
            else if ( auto* S = dyn_cast<StoreInst>(I) ) { p = S->getPointerOperand(); at = S->isAtomic() || S->isVolatile(); }
            else if ( isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I) ) at = true;
            else if ( auto* c = dyn_cast<CallBase>(I) ) {
                bool ps = false;
                if ( auto* ia = dyn_cast<InlineAsm>(c->getCalledOperand()) ) ps = StringRef(ia->getAsmString()).contains("pause");
                else if ( auto* f = c->getCalledFunction() ) ps = f->getName() == "llvm.x86.sse2.pause";
                if ( ps ) { mark(I, pause, {}); I->eraseFromParent(); }
                continue;
            }
            if ( at ) mark(I, pt, {});
            else if ( p && races ) {
                auto* u = getUnderlyingObject(p);
                if ( isa<AllocaInst>(u) ) continue;
                if ( auto* g = dyn_cast<GlobalVariable>(u) ) if ( g->isConstant() ) continue;
                mark(I, mem, { p });
            }
        }
    }
    std::error_code ec; raw_fd_ostream o(out, ec);
    WriteBitcodeToFile(*M, o);
    return ec ? 1 : 0;
}
