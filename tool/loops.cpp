// loops: prints, for every loop of a module, the argument why it ends (or that there is none), and every
// (self-)recursive call with the way its arguments shrink.  One JSON document on stdout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/PatternMatch.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Analysis/ScalarEvolutionExpressions.h>
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/TargetLibraryInfo.h>
#include <llvm/Analysis/CycleAnalysis.h>
#include <llvm/Analysis/AliasAnalysis.h>
#include <llvm/Analysis/BasicAliasAnalysis.h>
#include <llvm/Analysis/TypeBasedAliasAnalysis.h>
#include <llvm/Analysis/MemoryLocation.h>
#include <llvm/Analysis/ValueTracking.h>
#include <set>
#include <map>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/TargetParser/Triple.h>
using namespace llvm;
using namespace llvm::PatternMatch;
using json::Object; using json::Array;

static std::string file(const DebugLoc&d){ if(!d) return ""; auto*f=cast<DIScope>(d.getScope())->getFile(); return (f->getFilename().starts_with("/")?f->getFilename().str():(f->getDirectory()+"/"+f->getFilename()).str()); }

// value of a loop-header phi after one iteration is smaller by at least a factor of two / larger by at least two
static bool shrinks(const Value*next,const Value*phi){
  const APInt*c;
  if(match(next,m_LShr(m_Specific(phi),m_APInt(c)))||match(next,m_AShr(m_Specific(phi),m_APInt(c)))) return c->ugt(0);
  if(match(next,m_UDiv(m_Specific(phi),m_APInt(c)))) return c->ugt(1);
  if(match(next,m_SDiv(m_Specific(phi),m_APInt(c)))) return c->sgt(1);
  return false;
}
static bool grows(const Value*next,const Value*phi){
  const APInt*c;
  if(match(next,m_Shl(m_Specific(phi),m_APInt(c)))) return c->ugt(0);
  if(match(next,m_Mul(m_Specific(phi),m_APInt(c)))) return c->sgt(1);
  if(match(next,m_Add(m_Specific(phi),m_Specific(phi)))) return true;
  return false;
}
static const Value* strip(const Value*v){ while(auto*c=dyn_cast<CastInst>(v)) v=c->getOperand(0); return v; }


// the header phi that v is computed from by casts and the addition of constants, or whose next value v is
static const PHINode* ivOf(const Value*v,Loop*L){
  v=strip(v);
  const APInt*c; const Value*x;
  if(match(v,m_Add(m_Value(x),m_APInt(c)))) { if(auto*p=dyn_cast<PHINode>(strip(x))) if(p->getParent()==L->getHeader()) return p; }
  if(auto*p=dyn_cast<PHINode>(v)) if(p->getParent()==L->getHeader()) return p;
  for(auto&P:L->getHeader()->phis())
    for(unsigned i=0;i<P.getNumIncomingValues();i++) if(L->contains(P.getIncomingBlock(i))&&strip(P.getIncomingValue(i))==v) return &P;
  return nullptr;
}

// smallest amount by which v exceeds phi (sign=1) or falls below it (sign=-1) over all paths of one iteration
static const int64_t NONE=INT64_MIN;
static int64_t growth(const Value*v,const PHINode*P,int sign,Loop*L){
  struct E{const Value*from,*to;int64_t w;};
  std::vector<E> es; std::map<const Value*,int64_t> dist; std::vector<const Value*> w{v=strip(v)}; dist[v]=INT64_MAX;
  while(!w.empty()){
    const Value*u=w.back(); w.pop_back(); if(u==P) continue;
    auto*I=dyn_cast<Instruction>(u); if(!I||!L->contains(I)) return NONE;
    std::vector<std::pair<const Value*,int64_t>> in; const APInt*c; const Value*x,*y;
    if(match(u,m_Add(m_Value(x),m_APInt(c)))&&c->getSignificantBits()<32) in.push_back({x,sign*c->getSExtValue()});
    else if(match(u,m_Sub(m_Value(x),m_APInt(c)))&&c->getSignificantBits()<32) in.push_back({x,-sign*c->getSExtValue()});
    else if(match(u,m_Select(m_Value(),m_Value(x),m_Value(y)))){ in.push_back({x,0}); in.push_back({y,0}); }
    else if(auto*p=dyn_cast<PHINode>(u)) for(auto&o:p->incoming_values()) in.push_back({o.get(),0});
    else return NONE;
    for(auto&i:in){ const Value*f=strip(i.first); es.push_back({f,u,i.second}); if(!dist.count(f)){ dist[f]=INT64_MAX; w.push_back(f); } }
  }
  if(!dist.count(P)) return NONE;
  dist[P]=0; bool ch=true;
  for(size_t k=0;ch&&k<=dist.size();k++){ ch=false; for(auto&e:es) if(dist[e.from]!=INT64_MAX&&dist[e.from]+e.w<dist[e.to]){ dist[e.to]=dist[e.from]+e.w; ch=true; } }
  return ch||dist[v]==INT64_MAX?NONE:dist[v];
}
static bool moves(const PHINode*P,Loop*L,int sign){
  bool any=false;
  for(unsigned i=0;i<P->getNumIncomingValues();i++) if(L->contains(P->getIncomingBlock(i))){
    any=true;
    int64_t g=growth(P->getIncomingValue(i),P,sign,L);
    if(g==NONE||g<1) return false; }
  return any;
}

// v does not change while the loop runs
static bool fixedIn(const Value*v,Loop*L,ScalarEvolution&SE,AAResults&AA,int depth=0){
  if(SE.isSCEVable(v->getType())&&SE.isLoopInvariant(SE.getSCEV(const_cast<Value*>(v)),L)) return true;
  if(L->isLoopInvariant(v)) return true;
  if(depth>6) return false;
  auto*I=dyn_cast<Instruction>(v); if(!I) return false;
  if(isa<CastInst>(I)||isa<BinaryOperator>(I)||isa<GetElementPtrInst>(I)||isa<SelectInst>(I)||isa<CmpInst>(I)){
    for(auto&u:I->operands()) if(!fixedIn(u.get(),L,SE,AA,depth+1)) return false;
    return true; }
  auto*ld=dyn_cast<LoadInst>(I); if(!ld||!fixedIn(ld->getPointerOperand(),L,SE,AA,depth+1)) return false;
  auto loc=MemoryLocation::get(ld); const Value*base=getUnderlyingObject(ld->getPointerOperand());
  for(auto*B:L->blocks()) for(auto&J:*B){
    if(!isModSet(AA.getModRefInfo(&J,loc))) continue;
    auto*c=dyn_cast<CallBase>(&J); if(!c) return false;
    // a callee changes the variable only if it is given its address
    for(auto&a:c->args()) if(a->getType()->isPointerTy()&&getUnderlyingObject(a.get())==base) return false;
  }
  return true;
}

static bool positive(const Value*step,const SCEV*st,Loop*L,ScalarEvolution&SE,DominatorTree&DT){
  if(SE.isKnownNonZero(st)) return true;
  if(SE.isLoopEntryGuardedByCond(L,CmpInst::ICMP_NE,st,SE.getZero(st->getType()))) return true;
  // an enclosing "x < step"
  for(auto*N=DT.getNode(L->getHeader());N;N=N->getIDom()){
    auto*D=N->getIDom(); if(!D) break;
    auto*br=dyn_cast<BranchInst>(D->getBlock()->getTerminator()); if(!br||!br->isConditional()) continue;
    auto*ic=dyn_cast<ICmpInst>(br->getCondition()); if(!ic) continue;
    for(int k=0;k<2;k++){ auto q=ic->getPredicate(); if(k) q=CmpInst::getSwappedPredicate(q);
      if(!SE.isSCEVable(ic->getOperand(0)->getType())||SE.getSCEV(ic->getOperand(1-k))!=st) continue;
      BasicBlockEdge t(br->getParent(),br->getSuccessor(0)), f(br->getParent(),br->getSuccessor(1));
      if((q==CmpInst::ICMP_ULT&&DT.dominates(t,L->getHeader()))||(q==CmpInst::ICMP_UGE&&DT.dominates(f,L->getHeader()))) return true; } }
  return false;
}

static std::string why(Loop*L,ScalarEvolution&SE,DominatorTree&DT,AAResults&AA){
  const SCEV*m=SE.getSymbolicMaxBackedgeTakenCount(L);
  if(!isa<SCEVCouldNotCompute>(m)) return "number of iterations computed on entry";
  SmallVector<const SCEVPredicate*,4> ps;
  const SCEV*p=SE.getPredicatedBackedgeTakenCount(L,ps);
  if(!isa<SCEVCouldNotCompute>(p)) return "number of iterations computed on entry (no wrap)";
  SmallVector<BasicBlock*,8> ex; L->getExitingBlocks(ex);
  SmallVector<BasicBlock*,4> lat; L->getLoopLatches(lat);
  for(auto*B:ex){
    bool dom=true; for(auto*l:lat) dom&=DT.dominates(B,l);
    if(!dom) continue;
    auto*br=dyn_cast<BranchInst>(B->getTerminator()); if(!br||!br->isConditional()) continue;
    bool neg=!L->contains(br->getSuccessor(0));
    // conditions that must all hold for the loop to go on
    std::vector<Value*> w{br->getCondition()}; std::vector<std::pair<ICmpInst*,bool>> cs;
    while(!w.empty()){ auto*v=w.back(); w.pop_back(); Value*x,*y;
      if(!neg&&match(v,m_LogicalAnd(m_Value(x),m_Value(y)))){ w.push_back(x); w.push_back(y); }
      else if(neg&&match(v,m_LogicalOr(m_Value(x),m_Value(y)))){ w.push_back(x); w.push_back(y); }
      else if(auto*c=dyn_cast<ICmpInst>(v)) cs.push_back({c,neg}); }
    for(auto&cc:cs){
      auto*c=cc.first; auto pr=c->getPredicate();
      if(cc.second) pr=CmpInst::getInversePredicate(pr);   // condition to stay
      for(int k=0;k<2;k++){
        const Value*a=c->getOperand(k),*b=c->getOperand(1-k);
        auto q=k?CmpInst::getSwappedPredicate(pr):pr;
        if(!fixedIn(b,L,SE,AA)) continue;
        bool lt=q==CmpInst::ICMP_ULT||q==CmpInst::ICMP_SLT||q==CmpInst::ICMP_ULE||q==CmpInst::ICMP_SLE;
        bool gt=q==CmpInst::ICMP_UGT||q==CmpInst::ICMP_SGT||q==CmpInst::ICMP_UGE||q==CmpInst::ICMP_SGE;
        const APInt*z; bool zero=match(b,m_APInt(z))&&z->isZero();
        if(SE.isSCEVable(a->getType())){
          auto*ar=dyn_cast<SCEVAddRecExpr>(SE.getSCEV(const_cast<Value*>(a)));
          if(ar&&ar->getLoop()==L&&ar->isAffine()){
            const SCEV*sr=ar->getStepRecurrence(SE);
            if(auto*st=dyn_cast<SCEVConstant>(sr)){
              bool up=st->getAPInt().isStrictlyPositive(), down=st->getAPInt().isNegative();
              if(up&&lt) return "counts up to a bound";
              if(down&&gt&&!(q==CmpInst::ICMP_UGE&&zero)) return "counts down to a bound";
              if(q==CmpInst::ICMP_NE&&(st->getAPInt().isOne()||st->getAPInt().isAllOnes())) return "counts by one to a bound";
            } else if(lt&&SE.isLoopInvariant(sr,L)&&positive(nullptr,sr,L,SE,DT)) return "counts up to a bound in steps that are not zero";
          }
        }
        const PHINode*P=ivOf(a,L);
        if(!P) continue;
        bool sh=true,gr=true,any=false;
        for(unsigned i=0;i<P->getNumIncomingValues();i++) if(L->contains(P->getIncomingBlock(i))){ any=true; sh&=shrinks(strip(P->getIncomingValue(i)),P); gr&=grows(strip(P->getIncomingValue(i)),P); }
        if(any&&sh&&match(b,m_APInt(z))&&((q==CmpInst::ICMP_UGT||q==CmpInst::ICMP_SGT)||(q==CmpInst::ICMP_NE&&z->isZero())||((q==CmpInst::ICMP_UGE||q==CmpInst::ICMP_SGE)&&z->isStrictlyPositive()))) return "a counter is divided until it is small";
        if(any&&gr&&lt) return "a counter is multiplied up to a bound";
        if(lt&&moves(P,L,1)) return "a counter grows in every iteration up to a bound";
        if(gt&&!(q==CmpInst::ICMP_UGE&&zero)&&moves(P,L,-1)) return "a counter falls in every iteration down to a bound";
        // position on an explicit stack: one up or one down in every iteration
        if(any&&match(b,m_APInt(z))){ bool stack=true,up=false,down=false;
          std::vector<const Value*> w2; std::set<const Value*> seen;
          for(unsigned i=0;i<P->getNumIncomingValues();i++) if(L->contains(P->getIncomingBlock(i))) w2.push_back(P->getIncomingValue(i));
          while(!w2.empty()&&stack){ auto*v=strip(w2.back()); w2.pop_back(); if(!seen.insert(v).second) continue; const APInt*cc2; Value*x;
            if(match(v,m_Add(m_Specific(P),m_APInt(cc2)))&&(cc2->isOne()||cc2->isAllOnes())){ up|=cc2->isOne(); down|=cc2->isAllOnes(); }
            else if(match(v,m_Sub(m_Specific(P),m_APInt(cc2)))&&cc2->isOne()) down=true;
            else if(auto*ph=dyn_cast<PHINode>(v)){ if(ph==P) stack=false; for(auto&u:ph->incoming_values()) w2.push_back(u.get()); }
            else if(match(v,m_Select(m_Value(),m_Value(),m_Value(x)))){ w2.push_back(cast<User>(v)->getOperand(1)); w2.push_back(x); }
            else stack=false; }
          if(stack&&up&&down) return "stack"; }
      }
    }
  }
  return "";
}

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C);
  if(!M){ E.print("loops",errs()); return 2; }
  json::OStream J(outs(),0);
  TargetLibraryInfoImpl TLII(Triple(M->getTargetTriple()));
  Array loops, rec, irr; Object calls;
  for(auto&F:*M){
    if(F.isDeclaration()) continue;
    DominatorTree DT(F); LoopInfo LI(DT); AssumptionCache AC(F); TargetLibraryInfo TLI(TLII,&F);
    ScalarEvolution SE(F,TLI,AC,DT,LI);
    AAResults AA(TLI); BasicAAResult BAR(M->getDataLayout(),F,TLI,AC,&DT); TypeBasedAAResult TBAR; AA.addAAResult(BAR); AA.addAAResult(TBAR);
    Array cs; for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallBase>(&I)) if(auto*g=c->getCalledFunction()) if(!g->isDeclaration()) cs.push_back(g->getName().str());
    calls[F.getName().str()]=std::move(cs);
    CycleInfo CI; CI.compute(F);
    for(auto*Top:CI.toplevel_cycles()) for(auto it=df_begin(Top),e=df_end(Top);it!=e;++it) if(!(*it)->isReducible()) irr.push_back(F.getName().str());
    for(auto*L:LI.getLoopsInPreorder()){
      DebugLoc d=L->getStartLoc(); if(!d) for(auto&I:*L->getHeader()) if(I.getDebugLoc()){ d=I.getDebugLoc(); break; }
      SmallVector<BasicBlock*,8> ex; L->getExitingBlocks(ex);
            loops.push_back(Object{{"func",F.getName().str()},{"file",file(d)},{"line",(int64_t)(d?d.getLine():0)},{"depth",(int64_t)L->getLoopDepth()},{"exits",(int64_t)ex.size()},{"why",why(L,SE,DT,AA)}});
    }
    for(auto&B:F) for(auto&I:B) if(auto*c=dyn_cast<CallInst>(&I)) if(c->getCalledFunction()==&F){
      bool ok=false; std::string how;
      for(unsigned i=0;i<c->arg_size()&&i<F.arg_size();i++){
        const Value*v=c->getArgOperand(i); const Value*A=F.getArg(i); const APInt*k;
        if(shrinks(strip(v),A)||match(v,m_Add(m_Specific(A),m_AllOnes()))||(match(v,m_Sub(m_Specific(A),m_APInt(k)))&&k->isStrictlyPositive())){
          // the call must be guarded by a comparison of that argument with a constant
          for(auto*D=DT.getNode(&B)->getIDom();D;D=D->getIDom()) if(auto*br=dyn_cast<BranchInst>(D->getBlock()->getTerminator())) if(br->isConditional())
            if(auto*ic=dyn_cast<ICmpInst>(br->getCondition())) for(int o=0;o<2;o++) if(ic->getOperand(o)==A&&match(ic->getOperand(1-o),m_APInt(k))) { ok=true; how="argument "+std::to_string(i)+" shrinks and is compared with a constant"; }
        }
      }
      rec.push_back(Object{{"func",F.getName().str()},{"file",file(I.getDebugLoc())},{"line",(int64_t)(I.getDebugLoc()?I.getDebugLoc().getLine():0)},{"why",ok?how:std::string()}});
    }
  }
  J.value(Object{{"loops",std::move(loops)},{"recursion",std::move(rec)},{"irreducible",std::move(irr)},{"calls",std::move(calls)}});
  outs()<<"\n";
  return 0;
}
