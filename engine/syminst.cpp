// syminst: rewrites an LLVM bitcode module so that every scalar computation also
// builds a symbolic expression (see symrt.cpp).  Usage: syminst in.bc out.bc
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
using namespace llvm;

static Module *M;
static LLVMContext *C;
static Type *VoidT, *I1, *I32, *I64, *F64, *PtrT;
static FunctionCallee fBin, fUn, fCast, fCmp, fSel, fLoad, fStore, fMemcpy, fMemset, fClear, fBranch, fConc, fChk, fMemcmp, fIos, fStep, fM1, fM2, fRealloc, fFree;
static GlobalVariable *gArgv, *gCallee, *gRet;
static std::vector<std::string> siteFn;
static uint32_t curFn;

static const std::map<std::string,int> math1 = {{"sqrt",1},{"fabs",2},{"floor",3},{"ceil",4},{"sin",5},{"cos",6},{"round",7},{"trunc",8},{"tan",9},{"atan",10},{"exp",11},{"log",12},{"rint",13},{"nearbyint",13}};
static const std::map<std::string,int> math2 = {{"atan2",1},{"pow",2},{"fmod",3},{"hypot",4},{"fmin",5},{"fmax",6}};

static bool trackable(Type *T){ return T->isDoubleTy() || (T->isIntegerTy() && T->getIntegerBitWidth()<=64); }
static uint32_t tcode(Type *T){ return T->isDoubleTy()?200:T->getIntegerBitWidth(); }
static void leaves(Type *T, std::vector<Type*>&o){
  if(auto*S=dyn_cast<StructType>(T)){ for(auto*e:S->elements()) leaves(e,o); }
  else if(auto*A=dyn_cast<ArrayType>(T)){ for(unsigned i=0;i<A->getNumElements();i++) leaves(A->getElementType(),o); }
  else o.push_back(T);
}
static unsigned nleaves(Type*T){ std::vector<Type*> v; leaves(T,v); return v.size(); }

struct Inst {
  Function &F;
  std::map<Value*, std::vector<Value*>> sh;
  Value *Z;
  Inst(Function&f):F(f){ Z=ConstantInt::get(I32,0); }

  bool zero(Value*s){ return s==Z; }
  Value* S(Value*v, unsigned leaf=0){
    if(isa<Constant>(v)) return Z;
    auto it=sh.find(v); if(it==sh.end()) return Z;
    return leaf<it->second.size()?it->second[leaf]:Z;
  }
  void setS(Value*v, Value*s){ if(!zero(s)) sh[v]={s}; }
  static Value* U(IRBuilder<>&B, Value*v){
    Type*T=v->getType();
    if(T->isDoubleTy()) return B.CreateBitCast(v,I64);
    if(T->isPointerTy()) return B.CreatePtrToInt(v,I64);
    if(T->isIntegerTy(64)) return v;
    if(T->isIntegerTy()&&T->getIntegerBitWidth()<64) return B.CreateZExt(v,I64);
    return ConstantInt::get(I64,0);
  }
  Value* site(){ return ConstantInt::get(I32,curFn); }
  static Value* c32(uint32_t x){ return ConstantInt::get(I32,x); }
  void conc(IRBuilder<>&B, Value*v){
    Type*T=v->getType();
    if(trackable(T)){ Value*s=S(v); if(!zero(s)) B.CreateCall(fConc,{s,U(B,v),site()}); }
    else if(T->isAggregateType()) {
      std::vector<Type*> L; leaves(T,L);
      // aggregates: concretise leaves individually through extractvalue is overkill; flag
      auto it=sh.find(v); if(it!=sh.end()) for(auto*s:it->second) if(!zero(s)) B.CreateCall(fConc,{s,ConstantInt::get(I64,0),c32(~0u)});
    }
  }
  static unsigned leafIndex(Type*T, ArrayRef<unsigned> idx){
    unsigned base=0;
    for(unsigned k: idx){
      if(auto*S=dyn_cast<StructType>(T)){ for(unsigned i=0;i<k;i++) base+=nleaves(S->getElementType(i)); T=S->getElementType(k); }
      else { auto*A=cast<ArrayType>(T); base+=k*nleaves(A->getElementType()); T=A->getElementType(); }
    }
    return base;
  }

  void run(){
    // invoke: make sure the normal destination is only reached from the invoke
    std::vector<InvokeInst*> inv;
    for(auto&BB:F) if(auto*I=dyn_cast<InvokeInst>(BB.getTerminator())) inv.push_back(I);
    for(auto*I:inv){
      BasicBlock*N=I->getNormalDest();
      BasicBlock*NB=BasicBlock::Create(*C,"inv.sym",&F,N);
      BranchInst::Create(N,NB);
      I->setNormalDest(NB);
      for(PHINode&p:N->phis()) p.replaceIncomingBlockWith(I->getParent(),NB);
    }
    std::vector<Instruction*> work; std::vector<PHINode*> phis;
    // create in reverse post-order so that operand shadows exist
    std::vector<BasicBlock*> order; { std::set<BasicBlock*> seen; std::vector<std::pair<BasicBlock*,unsigned>> st; std::vector<BasicBlock*> post;
      st.push_back({&F.getEntryBlock(),0}); seen.insert(&F.getEntryBlock());
      while(!st.empty()){ auto&[b,i]=st.back(); auto*T=b->getTerminator(); if(i<T->getNumSuccessors()){ auto*s=T->getSuccessor(i++); if(seen.insert(s).second) st.push_back({s,0}); } else { post.push_back(b); st.pop_back(); } }
      order.assign(post.rbegin(),post.rend()); }
    for(auto*BB:order) for(auto&I:*BB){ if(auto*p=dyn_cast<PHINode>(&I)) phis.push_back(p); else work.push_back(&I); }
    // arguments
    BasicBlock&E=F.getEntryBlock();
    { IRBuilder<> B(&*E.getFirstInsertionPt());
      bool any=false; for(auto&a:F.args()) if(trackable(a.getType())) any=true;
      if(any){
        Value*cal=B.CreateLoad(PtrT,gCallee);
        Value*eq=B.CreateICmpEQ(cal,&F);
        unsigned i=0;
        for(auto&a:F.args()){
          if(trackable(a.getType()) && i<32){
            Value*p=B.CreateConstGEP2_32(gArgv->getValueType(),gArgv,0,i);
            Value*l=B.CreateLoad(I32,p);
            sh[&a]={B.CreateSelect(eq,l,Z)};
          }
          i++;
        }
        B.CreateStore(ConstantPointerNull::get(cast<PointerType>(PtrT)),gCallee);
      }
    }
    for(auto*p:phis){
      std::vector<Type*> L; leaves(p->getType(),L); bool any=false; for(auto*t:L) any|=trackable(t);
      if(!any) continue;
      std::vector<Value*> v;
      IRBuilder<> B(p);
      for(auto*t:L) v.push_back(trackable(t)?(Value*)B.CreatePHI(I32,p->getNumIncomingValues()):Z);
      sh[p]=v;
    }
    for(auto*I:work) visit(I);
    for(auto*p:phis){ auto it=sh.find(p); if(it==sh.end()) continue;
      for(unsigned k=0;k<it->second.size();k++) if(auto*sp=dyn_cast<PHINode>(it->second[k]))
        for(unsigned i=0;i<p->getNumIncomingValues();i++) sp->addIncoming(S(p->getIncomingValue(i),k),p->getIncomingBlock(i)); }
    // step counter per block (after shadows are complete)
    for(auto*BB:order){ IRBuilder<> B(&*BB->getFirstInsertionPt()); if(BB->isEHPad()) continue; B.CreateCall(fStep,{}); }
  }

  void call(CallBase*I){
    Function*Cal=I->getCalledFunction();
    StringRef nm = Cal?Cal->getName():"";
    IRBuilder<> B(I);
    if(auto*II=dyn_cast<IntrinsicInst>(I)){
      auto id=II->getIntrinsicID();
      IRBuilder<> A(I->getNextNode()?I->getNextNode():I);
      switch(id){
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore:
        case Intrinsic::eh_typeid_for: case Intrinsic::trap: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::donothing: return;
        case Intrinsic::expect: setS(I,S(I->getArgOperand(0))); return;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
          conc(B,I->getArgOperand(2));
          A.CreateCall(fMemcpy,{I->getArgOperand(0),I->getArgOperand(1),A.CreateZExtOrTrunc(I->getArgOperand(2),I64)}); return;
        case Intrinsic::memset:
          conc(B,I->getArgOperand(2));
          conc(B,I->getArgOperand(1));
          A.CreateCall(fMemset,{I->getArgOperand(0),A.CreateZExtOrTrunc(I->getArgOperand(2),I64)}); return;
        case Intrinsic::fabs: case Intrinsic::sqrt: case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::round: case Intrinsic::sin: case Intrinsic::cos: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::rint: case Intrinsic::nearbyint:
          if(I->getType()->isDoubleTy()){
            static const std::map<unsigned,int> k={{Intrinsic::fabs,2},{Intrinsic::sqrt,1},{Intrinsic::floor,3},{Intrinsic::ceil,4},{Intrinsic::trunc,8},{Intrinsic::round,7},{Intrinsic::sin,5},{Intrinsic::cos,6},{Intrinsic::exp,11},{Intrinsic::log,12},{Intrinsic::rint,13},{Intrinsic::nearbyint,13}};
            Value*s=S(I->getArgOperand(0)); if(zero(s)) return;
            setS(I,A.CreateCall(fM1,{c32(k.at(id)),U(A,I->getArgOperand(0)),s,U(A,I),site()})); return; }
          break;
        case Intrinsic::pow: case Intrinsic::minnum: case Intrinsic::maxnum:
          if(I->getType()->isDoubleTy()){
            int k=id==Intrinsic::pow?2:id==Intrinsic::minnum?5:6;
            Value*s=S(I->getArgOperand(0)),*t=S(I->getArgOperand(1)); if(zero(s)&&zero(t)) return;
            setS(I,A.CreateCall(fM2,{c32(k),U(A,I->getArgOperand(0)),s,U(A,I->getArgOperand(1)),t,U(A,I),site()})); return; }
          break;
        case Intrinsic::fmuladd: case Intrinsic::fma:
          if(I->getType()->isDoubleTy()){ // not fused on this target build (-ffp-contract=off): treat as unsupported unless concrete
            for(auto&a:I->args()) conc(B,a); return; }
          break;
        case Intrinsic::smin: case Intrinsic::smax: case Intrinsic::umin: case Intrinsic::umax:
          if(trackable(I->getType())){
            Value*a=I->getArgOperand(0),*b=I->getArgOperand(1); Value*s=S(a),*t=S(b); if(zero(s)&&zero(t)) return;
            auto pr=id==Intrinsic::smin?CmpInst::ICMP_SLT:id==Intrinsic::smax?CmpInst::ICMP_SGT:id==Intrinsic::umin?CmpInst::ICMP_ULT:CmpInst::ICMP_UGT;
            Value*c=A.CreateICmp(pr,a,b);
            Value*sc=A.CreateTrunc(A.CreateCall(fCmp,{c32(pr),c32(tcode(a->getType())),U(A,a),s,U(A,b),t,U(A,c),site()}),I32);
            setS(I,A.CreateCall(fSel,{A.CreateZExt(c,I32),sc,U(A,a),s,U(A,b),t,c32(tcode(I->getType())),U(A,I),site()})); return; }
          break;
        case Intrinsic::abs:
          if(trackable(I->getType())){
            Value*a=I->getArgOperand(0); Value*s=S(a); if(zero(s)) return;
            Value*z=ConstantInt::get(a->getType(),0);
            Value*c=A.CreateICmpSLT(a,z); Value*n=A.CreateNeg(a);
            Value*sn=A.CreateCall(fBin,{c32(Instruction::Sub),c32(tcode(a->getType())),U(A,z),Z,U(A,a),s,U(A,n),site()});
            Value*sc=A.CreateTrunc(A.CreateCall(fCmp,{c32(CmpInst::ICMP_SLT),c32(tcode(a->getType())),U(A,a),s,U(A,z),Z,U(A,c),site()}),I32);
            setS(I,A.CreateCall(fSel,{A.CreateZExt(c,I32),sc,U(A,n),sn,U(A,a),s,c32(tcode(I->getType())),U(A,I),site()})); return; }
          break;
        default: break;
      }
      for(auto&a:I->args()) conc(B,a);
      return;
    }
    if(I->isInlineAsm()){ for(auto&a:I->args()) conc(B,a); return; }
    bool ext = Cal && (Cal->isDeclaration() || Cal->hasAvailableExternallyLinkage());
    Instruction*after=nullptr;
    if(auto*iv=dyn_cast<InvokeInst>(I)) after=&*iv->getNormalDest()->getFirstInsertionPt(); else after=I->getNextNode();
    if(ext && nm.starts_with("__sym_")) return;
    if(ext && Cal->getReturnType()->isDoubleTy()){
      auto k=math1.find(nm.str());
      if(k!=math1.end() && I->arg_size()==1){ Value*s=S(I->getArgOperand(0)); if(zero(s)) return; IRBuilder<> A(after); setS(I,A.CreateCall(fM1,{c32(k->second),U(A,I->getArgOperand(0)),s,U(A,I),site()})); return; }
      auto k2=math2.find(nm.str());
      if(k2!=math2.end() && I->arg_size()==2){ Value*s=S(I->getArgOperand(0)),*t=S(I->getArgOperand(1)); if(zero(s)&&zero(t)) return; IRBuilder<> A(after); setS(I,A.CreateCall(fM2,{c32(k2->second),U(A,I->getArgOperand(0)),s,U(A,I->getArgOperand(1)),t,U(A,I),site()})); return; }
    }
    if(ext && (nm=="memcpy"||nm=="memmove")){ conc(B,I->getArgOperand(2)); IRBuilder<> A(after); A.CreateCall(fMemcpy,{I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2)}); return; }
    if(ext && nm=="memset"){ conc(B,I->getArgOperand(2)); IRBuilder<> A(after); A.CreateCall(fMemset,{I->getArgOperand(0),I->getArgOperand(2)}); return; }
    if(ext && (nm=="malloc"||nm=="_Znwm"||nm=="_Znam"||nm=="calloc"||nm=="realloc"||nm=="_ZnwmRKSt9nothrow_t")){
      for(auto&a:I->args()) conc(B,a);
      IRBuilder<> A(after);
      if(nm=="realloc") A.CreateCall(fRealloc,{I->getArgOperand(0),I,I->getArgOperand(1)});
      else A.CreateCall(fClear,{I,nm=="calloc"?A.CreateMul(I->getArgOperand(0),I->getArgOperand(1)):I->getArgOperand(0)});
      return;
    }
    if(ext && (nm=="free"||nm=="_ZdlPv"||nm=="_ZdlPvm"||nm=="_ZdaPv"||nm=="_ZdaPvm")){ B.CreateCall(fFree,{I->getArgOperand(0)}); return; } // the memory may be reused by code that is not instrumented
    if(ext && !nm.starts_with("sym_")){ for(auto&a:I->args()) conc(B,a);
      // memory the uninstrumented callee reads
      if(nm=="memchr"&&I->arg_size()==3) B.CreateCall(fChk,{I->getArgOperand(0),I->getArgOperand(2)});
      else if((nm=="memcmp"||nm=="bcmp")&&I->arg_size()==3){
        bool eq=true; for(User*u:I->users()){ auto*ic=dyn_cast<ICmpInst>(u); auto*k=ic?dyn_cast<ConstantInt>(ic->getOperand(1)):nullptr; if(!ic||!ic->isEquality()||!k||!k->isZero()) eq=false; }
        B.CreateCall(fMemcmp,{I->getArgOperand(0),I->getArgOperand(1),I->getArgOperand(2),ConstantInt::get(I32,eq),ConstantInt::get(I32,0)}); }
      else if((nm.starts_with("_ZNSo")||nm.starts_with("_ZNSi")||nm.starts_with("_ZStls")||nm.starts_with("_ZStrs")||nm.starts_with("_ZSt16__ostream_insert"))&&I->arg_size()>=1&&I->getArgOperand(0)->getType()->isPointerTy()) B.CreateCall(fIos,{I->getArgOperand(0)});
      return; }
    // instrumented (or indirect, or harness API) callee: pass shadows
    bool any=false; unsigned i=0;
    for(auto&a:I->args()){ if(trackable(a->getType()) && i<32 && !isa<Constant>(a)) any=true; i++; }
    if(any){ i=0;
      for(auto&a:I->args()){ if(trackable(a->getType()) && i<32) B.CreateStore(S(a),B.CreateConstGEP2_32(gArgv->getValueType(),gArgv,0,i)); i++; }
      B.CreateStore(I->getCalledOperand(),gCallee);
    }
    std::vector<Type*> L; if(!I->getType()->isVoidTy()) leaves(I->getType(),L);
    bool mt=false; if(auto*ci=dyn_cast<CallInst>(I)) mt=ci->isMustTailCall();
    bool anyr=false; for(unsigned k=0;k<L.size()&&k<8;k++) if(trackable(L[k])) anyr=true;
    if(mt||!anyr) return;
    for(unsigned k=0;k<L.size()&&k<8;k++) if(trackable(L[k])) B.CreateStore(Z,B.CreateConstGEP2_32(gRet->getValueType(),gRet,0,k));
    IRBuilder<> A(after); std::vector<Value*> v;
    for(unsigned k=0;k<L.size();k++) v.push_back(k<8&&trackable(L[k])?(Value*)A.CreateLoad(I32,A.CreateConstGEP2_32(gRet->getValueType(),gRet,0,k)):Z);
    sh[I]=v;
  }

  void visit(Instruction*I){
    IRBuilder<> B(I);
    Instruction*nx=I->getNextNode();
    if(auto*CB=dyn_cast<CallBase>(I)){ call(CB); return; }
    if(auto*BO=dyn_cast<BinaryOperator>(I)){
      Value*a=BO->getOperand(0),*b=BO->getOperand(1);
      if(!trackable(I->getType())){ conc(B,a); conc(B,b); return; }
      Value*s=S(a),*t=S(b); if(zero(s)&&zero(t)) return;
      IRBuilder<> A(nx);
      setS(I,A.CreateCall(fBin,{c32(BO->getOpcode()),c32(tcode(I->getType())),U(A,a),s,U(A,b),t,U(A,I),site()})); return;
    }
    if(isa<UnaryOperator>(I)){
      if(!trackable(I->getType())){ return; }
      Value*s=S(I->getOperand(0)); if(zero(s)) return; IRBuilder<> A(nx);
      setS(I,A.CreateCall(fUn,{c32(I->getOpcode()),U(A,I->getOperand(0)),s,U(A,I),site()})); return;
    }
    if(auto*CI=dyn_cast<CastInst>(I)){
      Value*a=CI->getOperand(0);
      if(auto*T=dyn_cast<FPTruncInst>(a)) if(T->getType()->isFloatTy()&&isa<FPExtInst>(CI)&&CI->getType()->isDoubleTy()&&T->getOperand(0)->getType()->isDoubleTy()){ bool all=true; for(auto*u:T->users()) if(!(isa<FPExtInst>(u)&&u->getType()->isDoubleTy())) all=false;
        if(all){ Value*d=T->getOperand(0),*s=S(d); if(zero(s)) return; IRBuilder<> A(nx); setS(I,A.CreateCall(fM1,{c32(20),U(A,d),s,U(A,I),site()})); return; } }
      Value*s=S(a); if(zero(s)) return;
      // double -> float -> double: rounding to single precision
      if(I->getType()->isFloatTy()&&a->getType()->isDoubleTy()){ bool all=true; for(auto*u:I->users()) if(!(isa<FPExtInst>(u)&&u->getType()->isDoubleTy())) all=false; if(all) return; }
      if(!trackable(I->getType())||!trackable(a->getType())){ conc(B,a); return; }
      IRBuilder<> A(nx);
      setS(I,A.CreateCall(fCast,{c32(CI->getOpcode()),c32(tcode(a->getType())),c32(tcode(I->getType())),U(A,a),s,U(A,I),site()})); return;
    }
    if(auto*CM=dyn_cast<CmpInst>(I)){
      Value*a=CM->getOperand(0),*b=CM->getOperand(1);
      if(!trackable(a->getType())){ conc(B,a); conc(B,b); return; }
      Value*s=S(a),*t=S(b); if(zero(s)&&zero(t)) return;
      IRBuilder<> A(nx);
      Value*u=A.CreateZExt(I,I64); Instruction*ui=cast<Instruction>(u);
      CallInst*r=A.CreateCall(fCmp,{c32(CM->getPredicate()),c32(tcode(a->getType())),U(A,a),s,U(A,b),t,u,site()});
      Value*node=A.CreateTrunc(r,I32);
      if(a->getType()->isDoubleTy()){
        Value*nv=A.CreateTrunc(A.CreateLShr(r,ConstantInt::get(I64,32)),I1);
        sh[nv]={node};
        I->replaceUsesWithIf(nv,[&](Use&x){ return x.getUser()!=ui; });
      }
      setS(I,node); return;
    }
    if(auto*SI=dyn_cast<SelectInst>(I)){
      Value*c=SI->getCondition(),*a=SI->getTrueValue(),*b=SI->getFalseValue();
      if(!c->getType()->isIntegerTy(1)){ return; }
      Value*sc=S(c);
      std::vector<Type*> L; leaves(I->getType(),L);
      if(L.size()!=1||!trackable(I->getType())||!trackable(L[0])){
        if(!zero(sc)) B.CreateCall(fBranch,{sc,c,site()});
        if(sh.count(a)||sh.count(b)){ IRBuilder<> A(nx); std::vector<Value*> v; for(unsigned k=0;k<L.size();k++) v.push_back(A.CreateSelect(c,S(a,k),S(b,k))); sh[I]=v; }
        return; }
      Value*s=S(a),*t=S(b);
      IRBuilder<> A(nx);
      if(zero(sc)){ if(zero(s)&&zero(t)) return; setS(I,A.CreateSelect(c,s,t)); return; }
      setS(I,A.CreateCall(fSel,{A.CreateZExt(c,I32),sc,U(A,a),s,U(A,b),t,c32(tcode(I->getType())),U(A,I),site()})); return;
    }
    if(auto*L=dyn_cast<LoadInst>(I)){
      const DataLayout&D=M->getDataLayout();
      uint64_t sz=D.getTypeStoreSize(I->getType());
      IRBuilder<> A(nx);
      if(trackable(I->getType())) setS(I,A.CreateCall(fLoad,{L->getPointerOperand(),ConstantInt::get(I64,sz),c32(tcode(I->getType())),U(A,I)}));
      else if(!I->getType()->isPointerTy()) A.CreateCall(fChk,{L->getPointerOperand(),ConstantInt::get(I64,sz)});
      return;
    }
    if(auto*St=dyn_cast<StoreInst>(I)){
      const DataLayout&D=M->getDataLayout(); Value*v=St->getValueOperand();
      uint64_t sz=D.getTypeStoreSize(v->getType());
      IRBuilder<> A(nx);
      std::vector<Type*> L; leaves(v->getType(),L);
      if(L.size()>1) conc(B,v);
      A.CreateCall(fStore,{St->getPointerOperand(),ConstantInt::get(I64,sz),trackable(v->getType())?S(v):Z,U(A,v)});
      return;
    }
    if(auto*G=dyn_cast<GetElementPtrInst>(I)){ for(auto&x:G->indices()) conc(B,x); return; }
    if(auto*Br=dyn_cast<BranchInst>(I)){ if(Br->isConditional()){ Value*s=S(Br->getCondition()); if(!zero(s)) B.CreateCall(fBranch,{s,Br->getCondition(),site()}); } return; }
    if(auto*Sw=dyn_cast<SwitchInst>(I)){ conc(B,Sw->getCondition()); return; }
    if(auto*R=dyn_cast<ReturnInst>(I)){
      Value*v=R->getReturnValue(); if(!v) return;
      if(auto*ci=dyn_cast_or_null<CallInst>(R->getPrevNode())) if(ci->isMustTailCall()) return;
      std::vector<Type*> L; leaves(v->getType(),L);
      for(unsigned k=0;k<L.size()&&k<8;k++) if(trackable(L[k])) B.CreateStore(S(v,k),B.CreateConstGEP2_32(gRet->getValueType(),gRet,0,k));
      return;
    }
    if(auto*EV=dyn_cast<ExtractValueInst>(I)){
      auto it=sh.find(EV->getAggregateOperand()); if(it==sh.end()) return;
      unsigned b=leafIndex(EV->getAggregateOperand()->getType(),EV->getIndices()); unsigned n=nleaves(I->getType());
      std::vector<Value*> v; for(unsigned k=0;k<n;k++) v.push_back(S(EV->getAggregateOperand(),b+k));
      sh[I]=v; return;
    }
    if(auto*IV=dyn_cast<InsertValueInst>(I)){
      unsigned n=nleaves(I->getType()); std::vector<Value*> v;
      for(unsigned k=0;k<n;k++) v.push_back(S(IV->getAggregateOperand(),k));
      unsigned b=leafIndex(I->getType(),IV->getIndices()); unsigned m=nleaves(IV->getInsertedValueOperand()->getType());
      for(unsigned k=0;k<m;k++) v[b+k]=S(IV->getInsertedValueOperand(),k);
      sh[I]=v; return;
    }
    if(isa<FreezeInst>(I)){ auto it=sh.find(I->getOperand(0)); if(it!=sh.end()) { auto v=it->second; sh[I]=v; } return; }
    if(auto*X=dyn_cast<AtomicRMWInst>(I)){ IRBuilder<> A(nx); A.CreateCall(fMemset,{X->getPointerOperand(),ConstantInt::get(I64,8)}); return; }
    if(auto*X=dyn_cast<AtomicCmpXchgInst>(I)){ (void)X; return; }
    if(auto*AI=dyn_cast<AllocaInst>(I)){ conc(B,AI->getArraySize()); // the stack slot may hold what an earlier frame left, and what is not instrumented writes there too
      auto sz=AI->getAllocationSize(M->getDataLayout()); if(sz&&!sz->isScalable()){ IRBuilder<> A(nx); A.CreateCall(fClear,{I,ConstantInt::get(I64,sz->getFixedValue())}); } return; }
    if(isa<UnreachableInst>(I)||isa<LandingPadInst>(I)||isa<ResumeInst>(I)||isa<FenceInst>(I)) return;
    for(auto&o:I->operands()) conc(B,o.get());
  }
};

// byval arguments become explicit copies so that shadows follow
static void stripByval(){
  const DataLayout&D=M->getDataLayout();
  for(auto&F:*M){
    for(auto&BB:F) for(auto&I:BB) if(auto*CB=dyn_cast<CallBase>(&I)){
      Function*Cal=CB->getCalledFunction();
      if(Cal&&Cal->isDeclaration()) continue;
      for(unsigned i=0;i<CB->arg_size();i++) if(CB->isByValArgument(i)){
        Type*T=CB->getParamByValType(i); Align al=CB->getParamAlign(i).valueOrOne(); if(al<Align(8)) al=Align(8);
        IRBuilder<> E(&*F.getEntryBlock().getFirstInsertionPt());
        AllocaInst*A=E.CreateAlloca(T); A->setAlignment(al);
        IRBuilder<> B(CB);
        B.CreateMemCpy(A,al,CB->getArgOperand(i),CB->getParamAlign(i),D.getTypeAllocSize(T));
        CB->setArgOperand(i,A);
        CB->removeParamAttr(i,Attribute::ByVal);
        if(auto*ci=dyn_cast<CallInst>(CB)) if(ci->isTailCall()&&!ci->isMustTailCall()) ci->setTailCall(false);
      }
    }
    if(!F.isDeclaration()) for(unsigned i=0;i<F.arg_size();i++) if(F.hasParamAttribute(i,Attribute::ByVal)) F.removeParamAttr(i,Attribute::ByVal);
  }
}

int main(int argc,char**argv){
  LLVMContext ctx; C=&ctx; SMDiagnostic err;
  auto mod=parseIRFile(argv[1],err,ctx); if(!mod){ err.print("syminst",errs()); return 2; }
  M=mod.get();
  VoidT=Type::getVoidTy(ctx); I1=Type::getInt1Ty(ctx); I32=Type::getInt32Ty(ctx); I64=Type::getInt64Ty(ctx); F64=Type::getDoubleTy(ctx); PtrT=PointerType::get(ctx,0);
  std::vector<Function*> fs; for(auto&F:*M) if(!F.isDeclaration()&&!F.hasAvailableExternallyLinkage()) fs.push_back(&F);
  stripByval();
  AttributeList nou=AttributeList().addFnAttribute(ctx,Attribute::NoUnwind);
  auto decl=[&](const char*n,Type*r,std::vector<Type*> a){ return M->getOrInsertFunction(n,FunctionType::get(r,a,false),nou); };
  fBin=decl("__sym_bin",I32,{I32,I32,I64,I32,I64,I32,I64,I32});
  fUn=decl("__sym_un",I32,{I32,I64,I32,I64,I32});
  fCast=decl("__sym_cast",I32,{I32,I32,I32,I64,I32,I64,I32});
  fCmp=decl("__sym_cmp",I64,{I32,I32,I64,I32,I64,I32,I64,I32});
  fSel=decl("__sym_select",I32,{I32,I32,I64,I32,I64,I32,I32,I64,I32});
  fLoad=decl("__sym_load",I32,{PtrT,I64,I32,I64});
  fStore=decl("__sym_store",VoidT,{PtrT,I64,I32,I64});
  fMemcpy=decl("__sym_memcpy",VoidT,{PtrT,PtrT,I64});
  fMemset=decl("__sym_memset",VoidT,{PtrT,I64});
  fClear=decl("__sym_memset",VoidT,{PtrT,I64});
  fFree=decl("__sym_free",VoidT,{PtrT});
  fRealloc=decl("__sym_realloc",VoidT,{PtrT,PtrT,I64});
  fBranch=decl("__sym_branch",VoidT,{I32,I1,I32});
  fConc=decl("__sym_conc",VoidT,{I32,I64,I32});
  fMemcmp=decl("__sym_memcmp",VoidT,{PtrT,PtrT,I64,I32,I32});
  fChk=decl("__sym_chk",VoidT,{PtrT,I64});
  fIos=decl("__sym_ios",VoidT,{PtrT});
  fStep=decl("__sym_step",VoidT,{});
  fM1=decl("__sym_math1",I32,{I32,I64,I32,I64,I32});
  fM2=decl("__sym_math2",I32,{I32,I64,I32,I64,I32,I64,I32});
  gArgv=new GlobalVariable(*M,ArrayType::get(I32,32),false,GlobalValue::ExternalLinkage,nullptr,"__sym_argv");
  gCallee=new GlobalVariable(*M,PtrT,false,GlobalValue::ExternalLinkage,nullptr,"__sym_callee");
  gRet=new GlobalVariable(*M,ArrayType::get(I32,8),false,GlobalValue::ExternalLinkage,nullptr,"__sym_ret");
  for(auto*F:fs){
    if(F->getName().starts_with("__sym_")) continue;
    siteFn.push_back(F->getName().str()); curFn=siteFn.size();
    // drop attributes that the inserted calls would contradict
    for(auto k:{Attribute::Memory,Attribute::NoSync,Attribute::NoFree,Attribute::WillReturn,Attribute::MustProgress,Attribute::Speculatable,Attribute::NoRecurse}) F->removeFnAttr(k);
    for(unsigned i=0;i<F->arg_size();i++) for(auto k:{Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly,Attribute::NoAlias,Attribute::NoCapture}) F->removeParamAttr(i,k);
    Inst(*F).run();
  }
  for(auto&F:*M) for(auto&BB:F) for(auto&I:BB) if(auto*CB=dyn_cast<CallBase>(&I)){ for(auto k:{Attribute::Memory,Attribute::NoSync,Attribute::NoFree,Attribute::WillReturn,Attribute::Speculatable}) CB->removeFnAttr(k); 
      for(unsigned i=0;i<CB->arg_size();i++) for(auto k:{Attribute::ReadNone,Attribute::ReadOnly,Attribute::WriteOnly,Attribute::NoAlias,Attribute::NoCapture}) CB->removeParamAttr(i,k); }
  // site table
  { std::string s; for(auto&f:siteFn) s+=f+"\n"; auto*cst=ConstantDataArray::getString(ctx,s,true);
    new GlobalVariable(*M,cst->getType(),true,GlobalValue::ExternalLinkage,cst,"__sym_sites"); }
  { std::error_code ec2; raw_fd_ostream so(std::string(argv[2])+".sites",ec2); for(auto&f:siteFn) so<<llvm::demangle(f)<<"\n"; }
  if(verifyModule(*M,&errs())) { errs()<<"verify failed\n"; return 3; }
  std::error_code ec; raw_fd_ostream o(argv[2],ec); WriteBitcodeToFile(*M,o); 
  return 0;
}
