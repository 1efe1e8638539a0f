// ir2json: prints an LLVM module as JSON for the VC generator. No semantic processing: every
// instruction is printed as it is; getelementptr is printed with its byte offsets (DataLayout).
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GlobalAlias.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/ADT/SmallString.h"
#include <map>
using namespace llvm;
static const DataLayout* DL;
static raw_ostream* O;
static void str(StringRef s){ *O<<'"'; for(unsigned char c: s){ if(c=='"'||c=='\\') *O<<'\\'<<c; else if(c<32||c>126){ static const char*h="0123456789abcdef"; *O<<"\\u00"<<h[c>>4]<<h[c&15]; } else *O<<c; } *O<<'"'; }
static void ty(Type*t){
  if(t->isIntegerTy()) *O<<"\"i"<<t->getIntegerBitWidth()<<'"';
  else if(t->isPointerTy()) *O<<"\"ptr\"";
  else if(t->isVoidTy()) *O<<"\"void\"";
  else if(t->isTokenTy()) *O<<"\"token\"";
  else if(t->isFloatTy()) *O<<"\"f32\"";
  else if(t->isDoubleTy()) *O<<"\"f64\"";
  else if(t->isX86_FP80Ty()) *O<<"\"f80\"";
  else if(auto*s=dyn_cast<StructType>(t)){
    if(s->isOpaque()){*O<<"\"opaque\"";return;}
    auto*L=DL->getStructLayout(s);
    *O<<"{\"s\":["; for(unsigned i=0;i<s->getNumElements();i++){ if(i)*O<<','; *O<<'['<<(uint64_t)L->getElementOffset(i)<<','; ty(s->getElementType(i)); *O<<']';} *O<<"],\"z\":"<<(uint64_t)L->getSizeInBytes();
    if(s->hasName()){*O<<",\"n\":";str(s->getName());}
    *O<<'}';
  } else if(auto*a=dyn_cast<ArrayType>(t)){ *O<<"{\"a\":"<<a->getNumElements()<<",\"e\":"; ty(a->getElementType()); *O<<",\"z\":"<<(uint64_t)DL->getTypeAllocSize(t)<<'}'; }
  else if(auto*v=dyn_cast<FixedVectorType>(t)){ *O<<"{\"v\":"<<v->getNumElements()<<",\"e\":"; ty(v->getElementType()); *O<<",\"z\":"<<(uint64_t)DL->getTypeAllocSize(t)<<'}'; }
  else *O<<"\"other\"";
}
static std::map<const Value*,int> ids; static std::map<const BasicBlock*,int> bids;
static void op(const Value*v){
  if(auto*bb=dyn_cast<BasicBlock>(v)){ *O<<"[\"b\","<<bids[bb]<<']'; return; }
  if(auto*c=dyn_cast<ConstantInt>(v)){ SmallString<40> s; c->getValue().toStringUnsigned(s); *O<<"[\"i\","<<c->getBitWidth()<<','<<s<<']'; return; }
  if(isa<ConstantPointerNull>(v)){ *O<<"[\"n\"]"; return; }
  if(isa<UndefValue>(v)){ *O<<"[\"u\","; ty(v->getType()); *O<<']'; return; }
  if(isa<ConstantAggregateZero>(v)){ *O<<"[\"z\","; ty(v->getType()); *O<<']'; return; }
  if(isa<ConstantTokenNone>(v)){ *O<<"[\"none\"]"; return; }
  if(auto*f=dyn_cast<ConstantFP>(v)){ SmallString<40> s; f->getValueAPF().toString(s); *O<<"[\"f\",\""<<s<<"\"]"; return; }
  if(auto*ga=dyn_cast<GlobalAlias>(v)){ op(ga->getAliasee()); return; }
  if(auto*g=dyn_cast<GlobalValue>(v)){ *O<<"[\"g\","; str(g->getName()); *O<<",0]"; return; }
  if(auto*d=dyn_cast<ConstantDataSequential>(v)){
    *O<<"[\"d\","; ty(d->getType()); *O<<",["; for(unsigned i=0;i<d->getNumElements();i++){ if(i)*O<<','; op(d->getElementAsConstant(i)); } *O<<"]]"; return; }
  if(auto*a=dyn_cast<ConstantAggregate>(v)){ *O<<"[\"d\","; ty(a->getType()); *O<<",["; for(unsigned i=0;i<a->getNumOperands();i++){ if(i)*O<<','; op(a->getOperand(i)); } *O<<"]]"; return; }
  if(auto*ce=dyn_cast<ConstantExpr>(v)){
    if(ce->getType()->isPointerTy()){
      APInt off(64,0); const Value*b=ce->stripAndAccumulateConstantOffsets(*DL,off,true);
      if(auto*ga=dyn_cast<GlobalAlias>(b)) b=ga->getAliasee();
      if(auto*g=dyn_cast<GlobalValue>(b)){ *O<<"[\"g\","; str(g->getName()); *O<<','<<off.getSExtValue()<<']'; return; }
    }
    *O<<"[\"ce\",\""<<ce->getOpcodeName()<<"\","; ty(ce->getType()); *O<<",["; for(unsigned i=0;i<ce->getNumOperands();i++){ if(i)*O<<','; op(ce->getOperand(i)); } *O<<"]]"; return; }
  if(isa<MetadataAsValue>(v)||isa<InlineAsm>(v)){ *O<<"[\"md\"]"; return; }
  auto it=ids.find(v); if(it!=ids.end()){ *O<<"[\"v\","<<it->second<<']'; return; }
  *O<<"[\"?\"]";
}
static void nm(const Value&v){ if(v.hasName()){ *O<<",\"nm\":"; str(v.getName()); } }
static void inst(const Instruction&I){
  *O<<"{\"o\":\""<<I.getOpcodeName()<<'"';
  if(!I.getType()->isVoidTy()){ *O<<",\"r\":"<<ids[&I]<<",\"t\":"; ty(I.getType()); nm(I);} 
  if(auto&dl=I.getDebugLoc()) if(dl.getLine()) *O<<",\"l\":"<<dl.getLine();
  if(auto*x=dyn_cast<AllocaInst>(&I)){ *O<<",\"z\":"<<(uint64_t)DL->getTypeAllocSize(x->getAllocatedType())<<",\"at\":"; ty(x->getAllocatedType()); *O<<",\"n\":"; op(x->getArraySize()); }
  else if(auto*x=dyn_cast<LoadInst>(&I)){ *O<<",\"p\":"; op(x->getPointerOperand()); *O<<",\"z\":"<<(uint64_t)DL->getTypeStoreSize(x->getType()); if(x->isAtomic()) *O<<",\"ord\":\""<<toIRString(x->getOrdering())<<'"'; }
  else if(auto*x=dyn_cast<StoreInst>(&I)){ *O<<",\"p\":"; op(x->getPointerOperand()); *O<<",\"v\":"; op(x->getValueOperand()); *O<<",\"vt\":"; ty(x->getValueOperand()->getType()); *O<<",\"z\":"<<(uint64_t)DL->getTypeStoreSize(x->getValueOperand()->getType()); if(x->isAtomic()) *O<<",\"ord\":\""<<toIRString(x->getOrdering())<<'"'; }
  else if(auto*x=dyn_cast<GetElementPtrInst>(&I)){ MapVector<Value*,APInt> vo; APInt co(64,0);
    if(!cast<GEPOperator>(x)->collectOffset(*DL,64,vo,co)) *O<<",\"bad\":1";
    *O<<",\"p\":"; op(x->getPointerOperand()); *O<<",\"off\":"<<co.getSExtValue()<<",\"idx\":["; bool f=true; for(auto&p:vo){ if(!f)*O<<','; f=false; *O<<'['<<p.second.getSExtValue()<<','; op(p.first); *O<<','; ty(p.first->getType()); *O<<']'; } *O<<']';
    *O<<",\"st\":"; Type*st=x->getSourceElementType(); if(auto*s=dyn_cast<StructType>(st)){ if(s->hasName()) str(s->getName()); else *O<<"\"\""; } else *O<<"\"\""; }
  else if(auto*x=dyn_cast<CallBase>(&I)){
    const Value*cal=x->getCalledOperand()->stripPointerCasts(); *O<<",\"fn\":"; op(cal);
    if(isa<InlineAsm>(cal)) *O<<",\"asm\":1";
    *O<<",\"a\":["; for(unsigned i=0;i<x->arg_size();i++){ if(i)*O<<','; op(x->getArgOperand(i)); } *O<<"],\"at\":["; for(unsigned i=0;i<x->arg_size();i++){ if(i)*O<<','; ty(x->getArgOperand(i)->getType()); } *O<<']';
    bool bv=false; for(unsigned i=0;i<x->arg_size();i++) if(x->isByValArgument(i)) bv=true;
    if(bv){ *O<<",\"byval\":["; for(unsigned i=0;i<x->arg_size();i++){ if(i)*O<<','; if(x->isByValArgument(i)) *O<<(uint64_t)DL->getTypeAllocSize(x->getParamByValType(i)); else *O<<0; } *O<<']'; }
    for(unsigned i=0;i<x->arg_size();i++) if(x->paramHasAttr(i,Attribute::StructRet)){ *O<<",\"sret\":"<<(uint64_t)DL->getTypeAllocSize(x->getParamStructRetType(i)); }
    if(x->doesNotThrow()) *O<<",\"nothrow\":1"; if(x->doesNotReturn()) *O<<",\"noret\":1";
    if(auto*inv=dyn_cast<InvokeInst>(&I)){ *O<<",\"nd\":"<<bids[inv->getNormalDest()]<<",\"ud\":"<<bids[inv->getUnwindDest()]; } }
  else if(auto*x=dyn_cast<PHINode>(&I)){ *O<<",\"in\":["; for(unsigned i=0;i<x->getNumIncomingValues();i++){ if(i)*O<<','; *O<<'['<<bids[x->getIncomingBlock(i)]<<','; op(x->getIncomingValue(i)); *O<<']'; } *O<<']'; }
  else if(auto*x=dyn_cast<BranchInst>(&I)){ if(x->isConditional()){ *O<<",\"c\":"; op(x->getCondition()); *O<<",\"d\":["<<bids[x->getSuccessor(0)]<<','<<bids[x->getSuccessor(1)]<<']'; } else *O<<",\"d\":["<<bids[x->getSuccessor(0)]<<']'; }
  else if(auto*x=dyn_cast<SwitchInst>(&I)){ *O<<",\"c\":"; op(x->getCondition()); *O<<",\"def\":"<<bids[x->getDefaultDest()]<<",\"cs\":["; bool f=true; for(auto&c:x->cases()){ if(!f)*O<<','; f=false; *O<<'['; op(c.getCaseValue()); *O<<','<<bids[c.getCaseSuccessor()]<<']'; } *O<<']'; }
  else if(auto*x=dyn_cast<CmpInst>(&I)){ *O<<",\"pr\":\""<<CmpInst::getPredicateName(x->getPredicate())<<"\",\"ot\":"; ty(x->getOperand(0)->getType()); *O<<",\"a\":["; op(x->getOperand(0)); *O<<','; op(x->getOperand(1)); *O<<']'; }
  else if(auto*x=dyn_cast<ExtractValueInst>(&I)){ *O<<",\"a\":["; op(x->getOperand(0)); *O<<"],\"ix\":["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i)*O<<','; *O<<x->getIndices()[i]; } *O<<']'; }
  else if(auto*x=dyn_cast<InsertValueInst>(&I)){ *O<<",\"a\":["; op(x->getOperand(0)); *O<<','; op(x->getOperand(1)); *O<<"],\"ix\":["; for(unsigned i=0;i<x->getNumIndices();i++){ if(i)*O<<','; *O<<x->getIndices()[i]; } *O<<']'; }
  else if(auto*x=dyn_cast<AtomicCmpXchgInst>(&I)){ *O<<",\"p\":"; op(x->getPointerOperand()); *O<<",\"e\":"; op(x->getCompareOperand()); *O<<",\"v\":"; op(x->getNewValOperand()); *O<<",\"z\":"<<(uint64_t)DL->getTypeStoreSize(x->getNewValOperand()->getType())<<",\"vt\":"; ty(x->getNewValOperand()->getType()); *O<<",\"so\":\""<<toIRString(x->getSuccessOrdering())<<"\",\"fo\":\""<<toIRString(x->getFailureOrdering())<<"\",\"weak\":"<<(x->isWeak()?1:0); }
  else if(auto*x=dyn_cast<AtomicRMWInst>(&I)){ *O<<",\"p\":"; op(x->getPointerOperand()); *O<<",\"v\":"; op(x->getValOperand()); *O<<",\"op\":\""<<AtomicRMWInst::getOperationName(x->getOperation())<<"\",\"z\":"<<(uint64_t)DL->getTypeStoreSize(x->getType())<<",\"ord\":\""<<toIRString(x->getOrdering())<<'"'; }
  else if(auto*x=dyn_cast<FenceInst>(&I)){ *O<<",\"ord\":\""<<toIRString(x->getOrdering())<<'"'; }
  else if(auto*x=dyn_cast<LandingPadInst>(&I)){ *O<<",\"cl\":["; for(unsigned i=0;i<x->getNumClauses();i++){ if(i)*O<<','; *O<<'['<<(x->isCatch(i)?1:0)<<','; op(x->getClause(i)); *O<<']'; } *O<<"],\"cleanup\":"<<(x->isCleanup()?1:0); }
  else { *O<<",\"ot\":["; for(unsigned i=0;i<I.getNumOperands();i++){ if(i)*O<<','; ty(I.getOperand(i)->getType()); } *O<<"],\"a\":["; for(unsigned i=0;i<I.getNumOperands();i++){ if(i)*O<<','; op(I.getOperand(i)); } *O<<']'; 
    if(auto*b=dyn_cast<OverflowingBinaryOperator>(&I)){ if(b->hasNoSignedWrap()) *O<<",\"nsw\":1"; if(b->hasNoUnsignedWrap()) *O<<",\"nuw\":1"; } }
  *O<<'}';
}
int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C); if(!M){ E.print(argv[0],errs()); return 2; }
  DL=&M->getDataLayout(); std::error_code ec; raw_fd_ostream out(argv[2],ec); O=&out;
  out<<"{\"globals\":{"; bool f=true;
  for(auto&g:M->globals()){ if(!f)out<<",\n"; f=false; str(g.getName()); out<<":{\"z\":"<<(uint64_t)(g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()).getFixedValue():0)<<",\"const\":"<<(g.isConstant()?1:0)<<",\"t\":"; ty(g.getValueType()); if(g.isThreadLocal()) out<<",\"tls\":1"; if(g.hasInitializer()){ out<<",\"init\":"; op(g.getInitializer()); } out<<'}'; }
  out<<"},\n\"structs\":{"; f=true;
  for(auto*s:M->getIdentifiedStructTypes()){ if(s->isOpaque()) continue; if(!f)out<<",\n"; f=false; str(s->getName()); out<<':'; ty(s);} 
  out<<"},\n\"functions\":{"; f=true;
  for(auto&F:*M){
    if(!f)out<<",\n"; f=false; str(F.getName()); out<<":{\"d\":"; str(demangle(F.getName().str()));
    out<<",\"rt\":"; ty(F.getReturnType()); if(F.isVarArg()) out<<",\"va\":1"; if(F.doesNotThrow()) out<<",\"nothrow\":1"; 
    if(F.isPresplitCoroutine()) out<<",\"coro\":1";
    ids.clear(); bids.clear(); int n=0;
    out<<",\"args\":["; bool g=true; for(auto&a:F.args()){ ids[&a]=n++; if(!g)out<<','; g=false; out<<"{\"t\":"; ty(a.getType()); out<<",\"nm\":"; str(a.getName()); if(a.hasByValAttr()) out<<",\"byval\":"<<(uint64_t)DL->getTypeAllocSize(a.getParamByValType()); if(a.hasStructRetAttr()) out<<",\"sret\":"<<(uint64_t)DL->getTypeAllocSize(a.getParamStructRetType()); if(a.getDereferenceableBytes()) out<<",\"deref\":"<<a.getDereferenceableBytes(); out<<'}'; } out<<']';
    if(!F.isDeclaration()){
      if(auto*sp=F.getSubprogram()){ out<<",\"file\":"; str(sp->getFilename()); out<<",\"line\":"<<sp->getLine(); }
      int b=0; for(auto&B:F){ bids[&B]=b++; for(auto&I:B) if(!I.getType()->isVoidTy()) ids[&I]=n++; }
      out<<",\"blocks\":["; g=true; for(auto&B:F){ if(!g)out<<",\n"; g=false; out<<"{\"nm\":"; str(B.getName()); out<<",\"i\":["; bool h=true; for(auto&I:B){ if(auto*ii=dyn_cast<IntrinsicInst>(&I)) if(isa<DbgInfoIntrinsic>(ii)) continue; if(!h)out<<",\n"; h=false; inst(I);} out<<"]}"; } out<<']';
    }
    out<<'}';
  }
  out<<"}}\n"; return 0; }
