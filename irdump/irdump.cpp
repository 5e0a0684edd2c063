// irdump: reads LLVM bitcode, promotes allocas to SSA, normalises loops, prints the module as JSON.
// Trusted component: it must print the IR faithfully; it performs no other transformation.
#include "llvm/IR/Module.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Mem2Reg.h"
#include "llvm/Transforms/Utils/LoopSimplify.h"
#include "llvm/Transforms/Utils/LowerSwitch.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Analysis/LoopInfo.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
using namespace llvm;

static raw_ostream *O;
static const DataLayout *DL;
static std::map<const Value*, unsigned> ids;

static void str(StringRef s){
  *O<<'"';
  for(unsigned char c: s){
    if(c=='"'||c=='\\') *O<<'\\'<<c;
    else if(c<32||c>=127){ char b[8]; snprintf(b,8,"\\u%04x",c); *O<<b; }
    else *O<<c;
  }
  *O<<'"';
}
static void type(Type*t){ std::string s; raw_string_ostream os(s);
  if(t->isStructTy() && cast<StructType>(t)->hasName()) os<<"%"<<cast<StructType>(t)->getName();
  else t->print(os);
  str(os.str()); }

static void constant(const Constant*c);
static void operand(const Value*v){
  if(auto*c=dyn_cast<Constant>(v)) { constant(c); return; }
  if(isa<BasicBlock>(v)) { *O<<"[\"b\","<<ids[v]<<"]"; return; }
  if(isa<MetadataAsValue>(v)) { *O<<"[\"md\"]"; return; }
  if(isa<InlineAsm>(v)) { *O<<"[\"asm\"]"; return; }
  *O<<"[\"v\","<<ids[v]<<"]";
}
template<class G> static void gep(const G*g){
  *O<<"[\"gep\","; operand(g->getPointerOperand());
  APInt off(64,0); 
  MapVector<Value*,APInt> var;
  if(const_cast<G*>(g)->collectOffset(*DL,64,var,off)){
    *O<<","<<off.getSExtValue()<<",[";
    bool f=true;
    for(auto&kv:var){ if(!f)*O<<","; f=false; *O<<"["; operand(kv.first); *O<<","<<kv.second.getSExtValue()<<"]"; }
    *O<<"]]";
  } else *O<<",null,[]]";
}
static void constant(const Constant*c){
  if(auto*i=dyn_cast<ConstantInt>(c)){ SmallString<40> s; i->getValue().toStringSigned(s); *O<<"[\"n\","<<i->getBitWidth()<<",\""<<s<<"\"]"; return; }
  if(auto*f=dyn_cast<ConstantFP>(c)){ 
    bool lossy; APFloat d=f->getValueAPF(); d.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&lossy);
    uint64_t b=d.bitcastToAPInt().getZExtValue(); char buf[24]; snprintf(buf,24,"%016llx",(unsigned long long)b);
    *O<<"[\"f\",\""<<buf<<"\"]"; return; }
  if(isa<ConstantPointerNull>(c)){ *O<<"[\"null\"]"; return; }
  if(isa<UndefValue>(c)){ *O<<"[\"undef\"]"; return; }
  if(auto*a=dyn_cast<GlobalAlias>(c)){ constant(a->getAliasee()); return; }
  if(auto*g=dyn_cast<Function>(c)){ *O<<"[\"fn\","; str(g->getName()); *O<<"]"; return; }
  if(auto*g=dyn_cast<GlobalVariable>(c)){ *O<<"[\"g\","; str(g->getName()); *O<<"]"; return; }
  if(isa<ConstantAggregateZero>(c)){ *O<<"[\"z\","<<DL->getTypeAllocSize(c->getType()).getFixedValue()<<"]"; return; }
  if(auto*s=dyn_cast<ConstantDataSequential>(c)){
    if(s->isString()){ *O<<"[\"s\","; str(s->getAsString()); *O<<"]"; return; }
    *O<<"[\"agg\",["; uint64_t es=DL->getTypeAllocSize(s->getElementType());
    for(unsigned i=0;i<s->getNumElements();i++){ if(i)*O<<","; *O<<"["<<i*es<<","; constant(s->getElementAsConstant(i)); *O<<"]"; }
    *O<<"]]"; return; }
  if(auto*a=dyn_cast<ConstantAggregate>(c)){
    *O<<"[\"agg\",[";
    for(unsigned i=0;i<a->getNumOperands();i++){
      uint64_t off; if(auto*st=dyn_cast<StructType>(a->getType())) off=DL->getStructLayout(st)->getElementOffset(i);
      else off=i*DL->getTypeAllocSize(a->getOperand(i)->getType()).getFixedValue();
      if(i)*O<<","; *O<<"["<<off<<","; constant(a->getOperand(i)); *O<<"]"; }
    *O<<"]]"; return; }
  if(auto*e=dyn_cast<ConstantExpr>(c)){
    if(auto*g=dyn_cast<GEPOperator>(e)){ gep(g); return; }
    if(e->isCast()){ *O<<"[\"cast\",\""<<e->getOpcodeName()<<"\","; constant(e->getOperand(0)); *O<<"]"; return; }
    *O<<"[\"ce\",\""<<e->getOpcodeName()<<"\",["; for(unsigned i=0;i<e->getNumOperands();i++){ if(i)*O<<","; constant(e->getOperand(i)); } *O<<"]]"; return; }
  *O<<"[\"other\"]";
}
int main(int argc,char**argv){
  LLVMContext ctx; SMDiagnostic err;
  std::error_code ec; 
  if(argc<3) return 2;
  auto M=parseIRFile(argv[1],err,ctx);
  if(!M){ err.print("irdump",errs()); return 2; }
  raw_fd_ostream out(argv[2],ec); O=&out; DL=&M->getDataLayout();
  // drop unwinding edges: invoke -> call + br (exceptions are outside the model)
  for(auto&F:*M){
    std::vector<InvokeInst*> inv;
    for(auto&B:F) if(auto*I=dyn_cast<InvokeInst>(B.getTerminator())) inv.push_back(I);
    for(auto*I:inv){
      SmallVector<Value*,8> a(I->args());
      auto*C=CallInst::Create(I->getFunctionType(),I->getCalledOperand(),a,"",I);
      C->setAttributes(I->getAttributes()); C->setCallingConv(I->getCallingConv()); C->setDebugLoc(I->getDebugLoc());
      I->replaceAllUsesWith(C);
      auto*U=I->getUnwindDest(); BranchInst::Create(I->getNormalDest(),I);
      U->removePredecessor(I->getParent(),true);
      I->eraseFromParent();
    }
  }
  for(auto&F:*M) if(!F.isDeclaration()){ // remove unreachable blocks
    std::set<BasicBlock*> R; std::vector<BasicBlock*> W{&F.getEntryBlock()};
    while(!W.empty()){ auto*b=W.back(); W.pop_back(); if(!R.insert(b).second) continue; for(auto*s:successors(b)) W.push_back(s); }
    std::vector<BasicBlock*> dead; for(auto&B:F) if(!R.count(&B)) dead.push_back(&B);
    for(auto*b:dead) for(auto*s:successors(b)) if(R.count(s)) s->removePredecessor(b,true);
    for(auto*b:dead) b->dropAllReferences();
    for(auto*b:dead) { while(!b->empty()){ b->back().replaceAllUsesWith(UndefValue::get(b->back().getType())); b->back().eraseFromParent(); } }
    for(auto*b:dead) b->eraseFromParent();
  }
  PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
  PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
  PB.crossRegisterProxies(LAM,FAM,CAM,MAM);
  FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(LoopSimplifyPass());
  for(auto&F:*M) if(!F.isDeclaration()) FPM.run(F,FAM);

  out<<"{\"functions\":{\n"; bool ff=true;
  for(auto&F:*M){
    if(F.isIntrinsic()) continue;
    if(!ff) out<<",\n"; ff=false; str(F.getName()); out<<":{\"dem\":"; str(demangle(F.getName().str()));
    out<<",\"linkage\":"<<(int)F.getLinkage()<<",\"ret\":"; type(F.getReturnType());
    ids.clear(); unsigned n=0;
    out<<",\"args\":[";
    for(auto&A:F.args()){ ids[&A]=n; if(n) out<<","; n++; out<<"["; type(A.getType());
      out<<","; if(A.hasStructRetAttr()){ out<<"\"sret\","<<DL->getTypeAllocSize(A.getParamStructRetType()); } else if(A.hasByValAttr()){ out<<"\"byval\","<<DL->getTypeAllocSize(A.getParamByValType()); } else out<<"null,0"; out<<"]"; }
    out<<"]";
    if(auto*sp=F.getSubprogram()){ out<<",\"file\":"; str(sp->getFilename()); out<<",\"line\":"<<sp->getLine(); }
    if(F.isDeclaration()){ out<<"}"; continue; }
    for(auto&B:F){ ids[&B]=n++; for(auto&I:B) ids[&I]=n++; }
    DominatorTree DT(F); LoopInfo LI(DT);
    out<<",\"loops\":["; bool fl=true;
    for(auto*L:LI.getLoopsInPreorder()){ if(!fl) out<<","; fl=false; out<<"{\"header\":"<<ids[L->getHeader()]<<",\"parent\":";
      if(L->getParentLoop()) out<<ids[L->getParentLoop()->getHeader()]; else out<<"null";
      out<<",\"blocks\":["; bool fb=true; for(auto*b:L->blocks()){ if(!fb) out<<","; fb=false; out<<ids[b]; } out<<"]}"; }
    out<<"],\"blocks\":["; bool fb=true;
    for(auto&B:F){
      if(!fb) out<<","; fb=false; out<<"\n {\"id\":"<<ids[&B]<<",\"ins\":["; bool fi=true;
      for(auto&I:B){
        if(isa<DbgInfoIntrinsic>(I)) continue;
        if(!fi) out<<","; fi=false;
        out<<"\n  {\"id\":"<<ids[&I]<<",\"op\":\""<<I.getOpcodeName()<<"\",\"ty\":"; type(I.getType());
        if(I.getDebugLoc()) out<<",\"ln\":"<<I.getDebugLoc().getLine();
        if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ out<<",\"gep\":"; gep(g); }
        else if(auto*p=dyn_cast<PHINode>(&I)){ out<<",\"in\":["; for(unsigned i=0;i<p->getNumIncomingValues();i++){ if(i)out<<","; out<<"["<<ids[p->getIncomingBlock(i)]<<","; operand(p->getIncomingValue(i)); out<<"]"; } out<<"]"; }
        else if(auto*c=dyn_cast<CallBase>(&I)){ out<<",\"callee\":"; operand(c->getCalledOperand()); out<<",\"args\":["; for(unsigned i=0;i<c->arg_size();i++){ if(i)out<<","; operand(c->getArgOperand(i)); } out<<"]";
          out<<",\"argty\":["; for(unsigned i=0;i<c->arg_size();i++){ if(i)out<<","; type(c->getArgOperand(i)->getType()); } out<<"]";
          bool bv=false; for(unsigned i=0;i<c->arg_size();i++) if(c->isByValArgument(i)) bv=true;
          if(bv){ out<<",\"byval\":["; for(unsigned i=0;i<c->arg_size();i++){ if(i)out<<","; if(c->isByValArgument(i)) out<<DL->getTypeAllocSize(c->getParamByValType(i)); else out<<0; } out<<"]"; }
          if(c->doesNotReturn()) out<<",\"noreturn\":1"; }
        else {
          if(auto*a=dyn_cast<AllocaInst>(&I)){ out<<",\"size\":"<<DL->getTypeAllocSize(a->getAllocatedType())<<",\"aty\":"; type(a->getAllocatedType()); }
          if(auto*a=dyn_cast<CmpInst>(&I)){ out<<",\"pred\":\""<<CmpInst::getPredicateName(a->getPredicate())<<"\",\"cty\":"; type(a->getOperand(0)->getType()); }
          if(auto*a=dyn_cast<LoadInst>(&I)){ out<<",\"sz\":"<<DL->getTypeStoreSize(a->getType()); }
          if(auto*a=dyn_cast<StoreInst>(&I)){ out<<",\"sz\":"<<DL->getTypeStoreSize(a->getValueOperand()->getType())<<",\"vty\":"; type(a->getValueOperand()->getType()); }
          if(isa<CastInst>(I)){ out<<",\"sty\":"; type(I.getOperand(0)->getType()); }
          if(auto*a=dyn_cast<ExtractValueInst>(&I)){ out<<",\"idx\":["; bool f=true; for(unsigned x:a->indices()){ if(!f)out<<","; f=false; out<<x; } out<<"]"; }
          if(auto*a=dyn_cast<InsertValueInst>(&I)){ out<<",\"idx\":["; bool f=true; for(unsigned x:a->indices()){ if(!f)out<<","; f=false; out<<x; } out<<"]"; }
          if(auto*s=dyn_cast<SwitchInst>(&I)){ out<<",\"cases\":["; bool f=true; for(auto&c:s->cases()){ if(!f)out<<","; f=false; out<<"["; constant(c.getCaseValue()); out<<","<<ids[c.getCaseSuccessor()]<<"]"; } out<<"],\"default\":"<<ids[s->getDefaultDest()]; }
          out<<",\"ops\":["; for(unsigned i=0;i<I.getNumOperands();i++){ if(i)out<<","; operand(I.getOperand(i)); } out<<"]";
        }
        out<<"}";
      }
      out<<"]}";
    }
    out<<"]}";
  }
  out<<"},\n\"globals\":{"; bool fg=true;
  for(auto&G:M->globals()){
    if(!fg) out<<",\n"; fg=false; str(G.getName()); out<<":{\"dem\":"; str(demangle(G.getName().str())); out<<",\"size\":"; 
    if(G.getValueType()->isSized()) out<<DL->getTypeAllocSize(G.getValueType()); else out<<0;
    out<<",\"const\":"<<(G.isConstant()?1:0)<<",\"vty\":"; type(G.getValueType());
    if(G.hasInitializer()){ out<<",\"init\":"; constant(G.getInitializer()); }
    out<<"}";
  }
  out<<"},\n\"structs\":{"; bool fs=true;
  for(auto*st:M->getIdentifiedStructTypes()){ if(st->isOpaque()||!st->isSized()) continue; if(!fs) out<<",\n"; fs=false; str(st->getName()); out<<":{\"size\":"<<DL->getTypeAllocSize(st)<<"}"; }
  out<<"},\n\"aliases\":{"; bool fa=true;
  for(auto&A:M->aliases()){ auto*f=dyn_cast<Function>(A.getAliaseeObject()); if(!f) continue; if(!fa) out<<",\n"; fa=false; str(A.getName()); out<<":"; str(f->getName()); }
  out<<"}}\n";
  return 0;
}
