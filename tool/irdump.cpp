// irdump: prints a resolved LLVM module as JSON for the Python analyses in /verif/engine.
// Input: a bitcode/IR file.  Output: one JSON document on stdout.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/CFG.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/JSON.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <map>
#include <set>
using namespace llvm;
using json::Array; using json::Object; typedef json::Value JV;

static const DataLayout *DL;
static std::map<const llvm::Value*, int> ids;
static std::map<std::string,int> fileIds; static std::vector<std::string> fileNames;
static std::map<const DIType*, int> typeIds; static std::vector<const DIType*> typeList;

static int fileId(const DIFile *f){
  if(!f) return -1;
  std::string n=(f->getDirectory().empty()||f->getFilename().starts_with("/"))?f->getFilename().str():(f->getDirectory()+"/"+f->getFilename()).str();
  auto it=fileIds.find(n); if(it!=fileIds.end()) return it->second;
  int k=fileNames.size(); fileIds[n]=k; fileNames.push_back(n); return k;
}
static int typeId(const DIType*t){
  if(!t) return -1;
  auto it=typeIds.find(t); if(it!=typeIds.end()) return it->second;
  int k=typeList.size(); typeIds[t]=k; typeList.push_back(t); return k;
}
static std::string tyStr(Type*t){ std::string s; raw_string_ostream o(s); t->print(o); return o.str(); }

static std::string fpstr(const APFloat &f){ SmallString<32> s; f.toString(s,17,0); return std::string(s); }

static JV opnd(const llvm::Value *v);
static JV constant(const Constant *c){
  if(auto*ci=dyn_cast<ConstantInt>(c)){
    if(ci->getBitWidth()<=64) return Array{"c", ci->getBitWidth()==1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue(), (int64_t)ci->getBitWidth()};
    return Array{"u"};
  }
  if(auto*cf=dyn_cast<ConstantFP>(c)) { if(&cf->getValueAPF().getSemantics()==&APFloat::IEEEdouble()) return Array{"f", fpstr(cf->getValueAPF())}; bool l; APFloat f=cf->getValueAPF(); f.convert(APFloat::IEEEdouble(),APFloat::rmNearestTiesToEven,&l); return Array{"f", fpstr(f)}; }
  if(isa<ConstantPointerNull>(c)) return Array{"n"};
  if(isa<UndefValue>(c)) return Array{"u"};
  if(auto*f=dyn_cast<Function>(c)) return Array{"fn", f->getName().str()};
  if(auto*g=dyn_cast<GlobalVariable>(c)) return Array{"g", g->getName().str(), 0};
  if(auto*ce=dyn_cast<ConstantExpr>(c)){
    APInt off(64,0);
    const llvm::Value*b=ce->stripAndAccumulateConstantOffsets(*DL,off,true);
    if(auto*g=dyn_cast<GlobalVariable>(b)) return Array{"g", g->getName().str(), off.getSExtValue()};
    if(auto*f=dyn_cast<Function>(b)) return Array{"fn", f->getName().str()};
    return Array{"x", tyStr(ce->getType())};
  }
  if(isa<ConstantAggregateZero>(c)||isa<ConstantAggregate>(c)||isa<ConstantDataSequential>(c)) return Array{"agg"};
  return Array{"x", tyStr(c->getType())};
}
static JV opnd(const llvm::Value *v){
  if(auto*c=dyn_cast<Constant>(v)) return constant(c);
  if(auto*a=dyn_cast<Argument>(v)) return Array{"a",(int64_t)a->getArgNo()};
  if(isa<BasicBlock>(v)) return Array{"bb", ids[v]};
  if(isa<MetadataAsValue>(v)) return Array{"md"};
  if(isa<InlineAsm>(v)) return Array{"asm"};
  return Array{"v", ids[v]};
}
static void flat(const Constant*c, uint64_t off, Array &out){
  Type*t=c->getType();
  if(auto*st=dyn_cast<StructType>(t)){ auto*sl=DL->getStructLayout(st);
    for(unsigned i=0;i<st->getNumElements();i++) if(auto*e=c->getAggregateElement(i)) flat(e,off+sl->getElementOffset(i),out);
    return; }
  if(auto*at=dyn_cast<ArrayType>(t)){ uint64_t sz=DL->getTypeAllocSize(at->getElementType());
    uint64_t n=at->getNumElements(); if(n>65536) n=65536;
    for(uint64_t i=0;i<n;i++) if(auto*e=c->getAggregateElement((unsigned)i)) flat(e,off+i*sz,out);
    return; }
  out.push_back(Array{(int64_t)off,(int64_t)DL->getTypeStoreSize(t),constant(c)});
}
static const char* pred(CmpInst::Predicate p){ return CmpInst::getPredicateName(p).data(); }

int main(int argc,char**argv){
  LLVMContext C; SMDiagnostic E; auto M=parseIRFile(argv[1],E,C);
  if(!M){ E.print("irdump",errs()); return 2; }
  DL=&M->getDataLayout();
  json::OStream J(outs());
  J.objectBegin();
  J.attributeArray("globals",[&]{
    for(auto&g:M->globals()){
      Array init; if(g.hasInitializer()) flat(g.getInitializer(),0,init);
      SmallVector<DIGlobalVariableExpression*,1> ge; g.getDebugInfo(ge);
      int ti=-1, fi=-1, line=0; std::string dn;
      if(!ge.empty()){ auto*gv=ge[0]->getVariable(); ti=typeId(gv->getType()); fi=fileId(gv->getFile()); line=gv->getLine(); dn=gv->getName().str(); }
      std::string str; if(g.hasInitializer()) if(auto*cd=dyn_cast<ConstantDataArray>(g.getInitializer())) if(cd->isCString()) { str=cd->getAsCString().str(); init=Array{}; }
      if(!json::isUTF8(str)) str=json::fixUTF8(str);
      J.value(Object{{"name",g.getName().str()},{"const",g.isConstant()},{"tls",g.isThreadLocal()},
        {"internal",g.hasLocalLinkage()},{"decl",g.isDeclaration()},{"size",(int64_t)(g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()).getFixedValue():0)},
        {"ty",tyStr(g.getValueType())},{"init",std::move(init)},{"str",str},{"di",ti},{"file",fi},{"line",line},{"dname",dn}});
    }
  });
  J.attributeArray("functions",[&]{
    for(auto&F:*M){
      ids.clear();
      J.objectBegin();
      J.attribute("name",F.getName().str());
      J.attribute("internal",F.hasLocalLinkage());
      J.attribute("ret",tyStr(F.getReturnType()));
      J.attribute("memnone",F.doesNotAccessMemory());
      J.attribute("decl",F.isDeclaration());
      auto*SP=F.getSubprogram();
      if(SP){ J.attribute("dname",SP->getName().str()); J.attribute("file",fileId(SP->getFile())); J.attribute("line",(int64_t)SP->getLine());
        if(auto*ST=SP->getType()){ Array ts; for(auto t:ST->getTypeArray()) ts.push_back(typeId(t)); J.attribute("sig",std::move(ts)); } }
      // parameters with their declared (debug) type
      std::map<unsigned,std::pair<std::string,int>> dip;
      if(SP) for(auto*n:SP->getRetainedNodes()) if(auto*lv=dyn_cast<DILocalVariable>(n)) if(lv->getArg()) dip[lv->getArg()]={lv->getName().str(),typeId(lv->getType())};
      for(auto&BB:F) for(auto&I:BB) if(auto*d=dyn_cast<DbgVariableIntrinsic>(&I)) if(auto*lv=d->getVariable()) if(lv->getArg()&&lv->getScope()==SP) dip[lv->getArg()]={lv->getName().str(),typeId(lv->getType())};
      Array di; for(auto&p:dip) di.push_back(Array{(int64_t)p.first,p.second.first,p.second.second});
      J.attribute("dparams",std::move(di));
      Array ps; for(auto&A:F.args()) { Object o{{"name",A.getName().str()},{"ty",tyStr(A.getType())}}; if(A.hasStructRetAttr()) o["sret"]=true; if(A.hasByValAttr()) o["byval"]=(int64_t)DL->getTypeAllocSize(A.getParamByValType()); ps.push_back(std::move(o)); }
      J.attribute("params",std::move(ps));
      if(!F.isDeclaration()){
        int nb=0,nv=0;
        ReversePostOrderTraversal<Function*> RPO(&F);
        std::vector<BasicBlock*> order(RPO.begin(),RPO.end());
        for(auto*BB:order) ids[BB]=nb++;
        for(auto*BB:order) for(auto&I:*BB) ids[&I]=nv++;
        for(auto&BB:F) if(!ids.count(&BB)) ids[&BB]=-1;
        DominatorTree DT(F); LoopInfo LI(DT);
        J.attributeArray("blocks",[&]{
          for(auto*BB:order){
            J.objectBegin();
            J.attribute("name",BB->getName().str());
            if(auto*L=LI.getLoopFor(BB)){ J.attribute("loop",ids[L->getHeader()]); J.attribute("depth",(int64_t)L->getLoopDepth()); }
            Array insts;
            for(auto&I:*BB){
              if(isa<DbgInfoIntrinsic>(&I)||isa<PseudoProbeInst>(&I)) continue;
              int line=0,fi=-1; if(auto&d=I.getDebugLoc()){ line=d.getLine(); fi=fileId(d->getScope()->getFile()); }
              Array a; std::string op=I.getOpcodeName();
              a.push_back(op); a.push_back(ids[&I]); a.push_back(line); a.push_back(fi);
              if(auto*al=dyn_cast<AllocaInst>(&I)){
                a.push_back(al->getName().str()); a.push_back((int64_t)DL->getTypeAllocSize(al->getAllocatedType())); a.push_back(opnd(al->getArraySize())); a.push_back(tyStr(al->getAllocatedType()));
              } else if(auto*ld=dyn_cast<LoadInst>(&I)){
                a.push_back(opnd(ld->getPointerOperand())); a.push_back((int64_t)DL->getTypeStoreSize(ld->getType())); a.push_back(tyStr(ld->getType()));
              } else if(auto*st=dyn_cast<StoreInst>(&I)){
                a.push_back(opnd(st->getPointerOperand())); a.push_back((int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType())); a.push_back(tyStr(st->getValueOperand()->getType())); a.push_back(opnd(st->getValueOperand()));
              } else if(auto*gp=dyn_cast<GetElementPtrInst>(&I)){
                a.push_back(opnd(gp->getPointerOperand()));
                MapVector<llvm::Value*,APInt> vo; APInt co(64,0);
                gp->collectOffset(*DL,64,vo,co);
                a.push_back(co.getSExtValue()); Array v; for(auto&p:vo) v.push_back(Array{opnd(p.first),p.second.getSExtValue()}); a.push_back(std::move(v));
                // number of elements if one variable index selects an element of an array of known length
                int64_t n=0; if(auto*at=dyn_cast<ArrayType>(gp->getSourceElementType())) if(vo.size()==1&&gp->getNumIndices()==2&&!isa<ConstantInt>(gp->getOperand(2))) n=at->getNumElements();
                a.push_back(n);
              } else if(auto*br=dyn_cast<BranchInst>(&I)){
                if(br->isConditional()){ a.push_back(opnd(br->getCondition())); a.push_back(ids[br->getSuccessor(0)]); a.push_back(ids[br->getSuccessor(1)]); }
                else { a[0]="jmp"; a.push_back(ids[br->getSuccessor(0)]); }
              } else if(auto*sw=dyn_cast<SwitchInst>(&I)){
                a.push_back(opnd(sw->getCondition())); a.push_back(ids[sw->getDefaultDest()]);
                Array cs; for(auto c:sw->cases()) cs.push_back(Array{c.getCaseValue()->getSExtValue(),ids[c.getCaseSuccessor()]}); a.push_back(std::move(cs));
              } else if(auto*cb=dyn_cast<CallBase>(&I)){
                auto*cf=cb->getCalledOperand()->stripPointerCasts();
                a[0]="call"; if(auto*f=dyn_cast<Function>(cf)) a.push_back(f->getName().str()); else a.push_back(opnd(cf));
                Array as; for(auto&x:cb->args()) as.push_back(opnd(x)); a.push_back(std::move(as)); a.push_back(tyStr(I.getType()));
              } else if(auto*ph=dyn_cast<PHINode>(&I)){
                Array as; for(unsigned i=0;i<ph->getNumIncomingValues();i++) if(ids[ph->getIncomingBlock(i)]>=0) as.push_back(Array{ids[ph->getIncomingBlock(i)],opnd(ph->getIncomingValue(i))}); a.push_back(std::move(as)); a.push_back(tyStr(I.getType()));
              } else if(auto*cm=dyn_cast<CmpInst>(&I)){
                a.push_back(pred(cm->getPredicate())); a.push_back(opnd(cm->getOperand(0))); a.push_back(opnd(cm->getOperand(1)));
                if(auto*ity=dyn_cast<IntegerType>(cm->getOperand(0)->getType())) a.push_back((int64_t)ity->getBitWidth()); else a.push_back(cm->getOperand(0)->getType()->isPointerTy()?0:-1);
              } else if(auto*cs=dyn_cast<CastInst>(&I)){
                a.push_back(opnd(cs->getOperand(0))); a.push_back(tyStr(cs->getSrcTy())); a.push_back(tyStr(cs->getDestTy()));
              } else if(auto*ev=dyn_cast<ExtractValueInst>(&I)){
                a.push_back(opnd(ev->getAggregateOperand())); Array ix; for(auto i:ev->indices()) ix.push_back((int64_t)i); a.push_back(std::move(ix));
              } else if(auto*iv=dyn_cast<InsertValueInst>(&I)){
                a.push_back(opnd(iv->getAggregateOperand())); a.push_back(opnd(iv->getInsertedValueOperand())); Array ix; for(auto i:iv->indices()) ix.push_back((int64_t)i); a.push_back(std::move(ix));
              } else {
                for(auto&o:I.operands()) a.push_back(opnd(o));
                if(auto*b=dyn_cast<OverflowingBinaryOperator>(&I)) a.push_back(b->hasNoSignedWrap()?1:0);
              }
              insts.push_back(std::move(a));
            }
            J.attribute("i",std::move(insts));
            J.objectEnd();
          }
        });
      }
      J.objectEnd();
    }
  });
  J.attributeArray("types",[&]{
    for(size_t k=0;k<typeList.size();k++){
      auto*t=typeList[k]; Object o{{"tag",dwarf::TagString(t->getTag()).str()},{"name",t->getName().str()},{"size",(int64_t)t->getSizeInBits()/8}};
      if(auto*d=dyn_cast<DIDerivedType>(t)){ o["base"]=typeId(d->getBaseType()); }
      else if(auto*b=dyn_cast<DIBasicType>(t)){ o["enc"]=(int64_t)b->getEncoding(); }
      else if(auto*c=dyn_cast<DICompositeType>(t)){
        o["base"]=typeId(c->getBaseType());
        Array ms; for(auto*e:c->getElements()){ if(auto*m=dyn_cast<DIDerivedType>(e)) ms.push_back(Array{m->getName().str(),(int64_t)m->getOffsetInBits()/8,typeId(m->getBaseType())});
          else if(auto*en=dyn_cast<DIEnumerator>(e)) ms.push_back(Array{en->getName().str(),en->getValue().getSExtValue()}); }
        o["members"]=std::move(ms);
      }
      J.value(std::move(o));
    }
  });
  J.attributeArray("enums",[&]{
    for(auto*cu:M->debug_compile_units()) for(auto*e:cu->getEnumTypes()){ Array ms; for(auto*x:e->getElements()) if(auto*en=dyn_cast<DIEnumerator>(x)) ms.push_back(Array{en->getName().str(),en->getValue().getSExtValue()});
      J.value(Object{{"name",e->getName().str()},{"cu",cu->getFilename().str()},{"m",std::move(ms)}}); }
  });
  J.attributeArray("files",[&]{ for(auto&f:fileNames) J.value(f); });
  J.objectEnd();
  return 0;
}
