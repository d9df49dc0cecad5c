// Dumps an LLVM module as JSON for the abstract interpreter in /verif/engine.
// usage: irdump in.bc out.json
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/DebugLoc.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/Demangle/Demangle.h"
#include <map>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value*, int> IDS;
static std::map<std::string, int> FILES;
static std::vector<std::string> FILELIST;

static int fileId(const DIFile *f) {
    if (!f) return -1;
    std::string n = (f->getDirectory().empty() || f->getFilename().starts_with("/")) ?
        f->getFilename().str() : (f->getDirectory() + "/" + f->getFilename()).str();
    auto it = FILES.find(n);
    if (it != FILES.end()) return it->second;
    int id = (int) FILELIST.size();
    FILES[n] = id; FILELIST.push_back(n);
    return id;
}

static std::string ty(Type *t) {
    if (t->isVoidTy()) return "void";
    if (t->isIntegerTy()) return "i" + std::to_string(t->getIntegerBitWidth());
    if (t->isPointerTy()) return "ptr";
    if (t->isDoubleTy()) return "double";
    if (t->isFloatTy()) return "float";
    if (t->isX86_FP80Ty()) return "fp80";
    if (auto st = dyn_cast<StructType>(t)) {
        std::string s = "{";
        for (unsigned i = 0; i < st->getNumElements(); ++i) { if (i) s += ","; s += ty(st->getElementType(i)); }
        return s + "}";
    }
    if (auto at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + "x" + ty(at->getElementType()) + "]";
    if (auto vt = dyn_cast<FixedVectorType>(t)) return "<" + std::to_string(vt->getNumElements()) + "x" + ty(vt->getElementType()) + ">";
    if (t->isTokenTy()) return "token";
    if (t->isMetadataTy()) return "metadata";
    return "?";
}

static json::Value operand(const Value *v);

static json::Value constant(const Constant *c) {
    if (auto ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() <= 64)
            return json::Array{"c", (int) ci->getBitWidth(), std::to_string(ci->getZExtValue())};
        SmallString<64> s; ci->getValue().toString(s, 10, false);
        return json::Array{"c", (int) ci->getBitWidth(), s.str().str()};
    }
    if (isa<ConstantPointerNull>(c)) return json::Array{"n"};
    if (isa<UndefValue>(c)) return json::Array{"u"};
    if (auto cf = dyn_cast<ConstantFP>(c)) {
        bool lossy; APFloat f = cf->getValueAPF();
        f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &lossy);
        uint64_t bits = f.bitcastToAPInt().getZExtValue();
        return json::Array{"d", std::to_string(bits)};
    }
    if (isa<ConstantAggregateZero>(c)) return json::Array{"z"};
    if (auto f = dyn_cast<Function>(c)) return json::Array{"f", f->getName().str()};
    if (auto a = dyn_cast<GlobalAlias>(c)) return operand(a->getAliasee());
    if (auto g = dyn_cast<GlobalVariable>(c)) return json::Array{"g", g->getName().str(), 0};
    if (auto ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                auto base = operand(ce->getOperand(0));
                auto arr = base.getAsArray();
                if (arr && arr->size() == 3 && (*arr)[0] == json::Value("g")) {
                    int64_t o = *(*arr)[2].getAsInteger() + off.getSExtValue();
                    return json::Array{"g", (*arr)[1], o};
                }
            }
        }
        if (ce->isCast() && ce->getOpcode() != Instruction::PtrToInt) return operand(ce->getOperand(0));
        if (ce->getOpcode() == Instruction::PtrToInt) return json::Array{"pi", operand(ce->getOperand(0))};
        return json::Array{"x", std::string(ce->getOpcodeName())};
    }
    if (auto ca = dyn_cast<ConstantAggregate>(c)) {
        json::Array a;
        for (unsigned i = 0; i < ca->getNumOperands(); ++i) a.push_back(operand(ca->getOperand(i)));
        return json::Array{"a", std::move(a)};
    }
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        json::Array a;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) a.push_back(operand(cd->getElementAsConstant(i)));
        return json::Array{"a", std::move(a)};
    }
    return json::Array{"x", "const"};
}

static json::Value operand(const Value *v) {
    if (auto c = dyn_cast<Constant>(v)) return constant(c);
    auto it = IDS.find(v);
    if (it != IDS.end()) return json::Array{"r", it->second};
    if (isa<MetadataAsValue>(v)) return json::Array{"m"};
    return json::Array{"x", "value"};
}

// flatten an initializer in [offset,size,value] cells
static void flatten(const Constant *c, uint64_t off, json::Array &out) {
    Type *t = c->getType();
    if (isa<ConstantAggregateZero>(c)) { out.push_back(json::Array{(int64_t) off, (int64_t) DL->getTypeAllocSize(t), json::Array{"z"}}); return; }
    if (isa<UndefValue>(c)) return;
    if (auto cd = dyn_cast<ConstantDataSequential>(c)) {
        if (cd->getElementByteSize() == 1 && cd->getElementType()->isIntegerTy()) {
            std::string hex; static const char *H = "0123456789abcdef";
            for (unsigned char ch : cd->getRawDataValues()) { hex += H[ch >> 4]; hex += H[ch & 15]; }
            out.push_back(json::Array{(int64_t) off, (int64_t) cd->getNumElements(), json::Array{"s", hex}});
            return;
        }
        for (unsigned i = 0; i < cd->getNumElements(); ++i)
            flatten(cd->getElementAsConstant(i), off + i * cd->getElementByteSize(), out);
        return;
    }
    if (auto ca = dyn_cast<ConstantStruct>(c)) {
        auto sl = DL->getStructLayout(ca->getType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            flatten(ca->getOperand(i), off + sl->getElementOffset(i), out);
        return;
    }
    if (auto ca = dyn_cast<ConstantArray>(c)) {
        uint64_t sz = DL->getTypeAllocSize(ca->getType()->getElementType());
        for (unsigned i = 0; i < ca->getNumOperands(); ++i)
            flatten(ca->getOperand(i), off + i * sz, out);
        return;
    }
    out.push_back(json::Array{(int64_t) off, (int64_t) DL->getTypeStoreSize(t), operand(c)});
}

static std::string scopeName(const DIScope *s) {
    std::string r;
    for (; s; s = s->getScope()) {
        if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
        std::string n = s->getName().str();
        if (n.empty()) n = "(anonymous namespace)";
        r = r.empty() ? n : n + "::" + r;
    }
    return r;
}

static std::string diName(const DIType *t) {
    if (!t) return "void";
    if (auto d = dyn_cast<DIDerivedType>(t)) {
        switch (d->getTag()) {
            case dwarf::DW_TAG_pointer_type: return diName(d->getBaseType()) + "*";
            case dwarf::DW_TAG_reference_type: return diName(d->getBaseType()) + "&";
            case dwarf::DW_TAG_const_type: return diName(d->getBaseType());
            case dwarf::DW_TAG_typedef: return diName(d->getBaseType());
            default: break;
        }
    }
    return scopeName(t);
}

static json::Object types(Module &M) {
    json::Object out;
    DebugInfoFinder F; F.processModule(M);
    for (auto *t : F.types()) {
        auto *c = dyn_cast<DICompositeType>(t);
        if (!c || c->isForwardDecl()) continue;
        if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            json::Object vs;
            for (auto *e : c->getElements()) if (auto *en = dyn_cast<DIEnumerator>(e)) vs[en->getName().str()] = (int64_t) en->getValue().getSExtValue();
            std::string n = scopeName(c);
            json::Object o; o["enum"] = std::move(vs); o["size"] = (int64_t) (c->getSizeInBits() / 8);
            out[n] = std::move(o);
            continue;
        }
        if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type) continue;
        json::Object o; json::Array mem, vir, bases;
        for (auto *e : c->getElements()) {
            if (auto *d = dyn_cast<DIDerivedType>(e)) {
                if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember())
                    mem.push_back(json::Array{d->getName().str(), (int64_t) (d->getOffsetInBits() / 8), diName(d->getBaseType()), (int64_t) (d->getBaseType() ? d->getBaseType()->getSizeInBits() / 8 : 0)});
                else if (d->getTag() == dwarf::DW_TAG_inheritance)
                    bases.push_back(json::Array{diName(d->getBaseType()), (int64_t) (d->getOffsetInBits() / 8)});
            } else if (auto *sp = dyn_cast<DISubprogram>(e)) {
                if (sp->getVirtuality()) vir.push_back(json::Array{sp->getName().str(), sp->getLinkageName().str(), (int64_t) sp->getVirtualIndex()});
            }
        }
        o["size"] = (int64_t) (c->getSizeInBits() / 8);
        o["file"] = fileId(c->getFile()); o["line"] = (int) c->getLine();
        o["members"] = std::move(mem); o["virtuals"] = std::move(vir); o["bases"] = std::move(bases);
        out[scopeName(c)] = std::move(o);
    }
    return out;
}

static std::string pred(CmpInst::Predicate p) { return CmpInst::getPredicateName(p).str(); }

int main(int argc, char **argv) {
    if (argc != 3) return 2;
    LLVMContext ctx; SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, ctx);
    if (!M) { err.print(argv[0], errs()); return 1; }
    DL = &M->getDataLayout();
    std::error_code ec; raw_fd_ostream os(argv[2], ec);
    json::Object root;

    json::Object globals;
    for (auto &g : M->globals()) {
        json::Object o;
        o["dem"] = demangle(g.getName().str());
        o["const"] = g.isConstant();
        o["tls"] = g.isThreadLocal();
        o["decl"] = g.isDeclaration();
        o["local"] = g.hasLocalLinkage();
        o["size"] = (int64_t) (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        o["ty"] = ty(g.getValueType());
        SmallVector<DIGlobalVariableExpression*, 1> dis; g.getDebugInfo(dis);
        if (!dis.empty()) { auto v = dis[0]->getVariable(); o["file"] = fileId(v->getFile()); o["line"] = (int) v->getLine(); o["name"] = v->getName().str(); }
        if (g.hasInitializer()) { json::Array cells; flatten(g.getInitializer(), 0, cells); o["init"] = std::move(cells); }
        root.insert({"",nullptr}); root.erase("");
        globals[g.getName().str()] = std::move(o);
    }
    root["globals"] = std::move(globals);
    json::Object aliases;
    for (auto &a : M->aliases()) if (auto f = dyn_cast<Function>(a.getAliasee()->stripPointerCasts())) aliases[a.getName().str()] = f->getName().str();
    root["aliases"] = std::move(aliases);

    json::Object funcs;
    for (auto &F : *M) {
        json::Object fo;
        fo["dem"] = demangle(F.getName().str());
        fo["ret"] = ty(F.getReturnType());
        fo["decl"] = F.isDeclaration();
        fo["local"] = F.hasLocalLinkage();
        fo["noret"] = F.doesNotReturn();
        fo["nounwind"] = F.doesNotThrow();
        fo["vararg"] = F.isVarArg();
        if (auto sp = F.getSubprogram()) {
            fo["file"] = fileId(sp->getFile()); fo["line"] = (int) sp->getLine(); fo["name"] = sp->getName().str();
            if (auto sc = sp->getScope()) fo["scope"] = sc->getName().str();
        }
        IDS.clear(); int n = 0;
        json::Array args;
        for (auto &a : F.args()) {
            IDS[&a] = n++;
            json::Object ao; ao["ty"] = ty(a.getType()); ao["name"] = a.getName().str();
            if (a.hasStructRetAttr()) ao["sret"] = (int64_t) DL->getTypeAllocSize(a.getParamStructRetType());
            if (a.hasByValAttr()) ao["byval"] = (int64_t) DL->getTypeAllocSize(a.getParamByValType());
            args.push_back(std::move(ao));
        }
        fo["args"] = std::move(args);
        if (!F.isDeclaration()) {
            std::map<const BasicBlock*, int> BB; int b = 0;
            for (auto &B : F) { BB[&B] = b++; for (auto &I : B) if (!I.getType()->isVoidTy()) IDS[&I] = n++; }
            fo["nreg"] = n;
            json::Array blocks;
            for (auto &B : F) {
                json::Array ins;
                for (auto &I : B) {
                    if (isa<DbgInfoIntrinsic>(&I)) continue;
                    json::Object o;
                    o["op"] = I.getOpcodeName();
                    if (!I.getType()->isVoidTy()) { o["d"] = IDS[&I]; }
                    o["t"] = ty(I.getType());
                    if (auto &dl = I.getDebugLoc()) { o["l"] = json::Array{fileId(dl->getFile()), (int) dl.getLine(), (int) dl.getCol()}; }
                    json::Array ops;
                    if (auto ai = dyn_cast<AllocaInst>(&I)) {
                        o["size"] = (int64_t) DL->getTypeAllocSize(ai->getAllocatedType());
                        o["aty"] = ty(ai->getAllocatedType());
                        if (auto st = dyn_cast<StructType>(ai->getAllocatedType())) if (st->hasName()) o["sname"] = st->getName().str();
                        ops.push_back(operand(ai->getArraySize()));
                        o["name"] = ai->getName().str();
                    } else if (auto gep = dyn_cast<GetElementPtrInst>(&I)) {
                        ops.push_back(operand(gep->getPointerOperand()));
                        int64_t off = 0; json::Array var;
                        for (auto it = gep_type_begin(gep), e = gep_type_end(gep); it != e; ++it) {
                            if (auto st = it.getStructTypeOrNull()) {
                                off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue());
                            } else {
                                int64_t sc = DL->getTypeAllocSize(it.getIndexedType());
                                if (auto ci = dyn_cast<ConstantInt>(it.getOperand())) off += ci->getSExtValue() * sc;
                                else var.push_back(json::Array{operand(it.getOperand()), sc});
                            }
                        }
                        o["off"] = off; o["var"] = std::move(var);
                        if (auto st = dyn_cast<StructType>(gep->getSourceElementType())) if (st->hasName()) o["sname"] = st->getName().str();
                    } else if (auto cb = dyn_cast<CallBase>(&I)) {
                        for (auto &a : cb->args()) ops.push_back(operand(a));
                        auto *cv = cb->getCalledOperand()->stripPointerCasts();
                        if (auto al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                        if (auto *fn = dyn_cast<Function>(cv)) o["fn"] = fn->getName().str();
                        else o["fv"] = operand(cb->getCalledOperand());
                        if (auto *inv = dyn_cast<InvokeInst>(cb)) { o["nb"] = BB[inv->getNormalDest()]; o["ub"] = BB[inv->getUnwindDest()]; }
                    } else if (auto br = dyn_cast<BranchInst>(&I)) {
                        if (br->isConditional()) { ops.push_back(operand(br->getCondition())); o["s"] = json::Array{BB[br->getSuccessor(0)], BB[br->getSuccessor(1)]}; }
                        else o["s"] = json::Array{BB[br->getSuccessor(0)]};
                    } else if (auto sw = dyn_cast<SwitchInst>(&I)) {
                        ops.push_back(operand(sw->getCondition()));
                        json::Array cs;
                        for (auto &c : sw->cases()) cs.push_back(json::Array{std::to_string(c.getCaseValue()->getZExtValue()), BB[c.getCaseSuccessor()]});
                        o["cases"] = std::move(cs); o["s"] = json::Array{BB[sw->getDefaultDest()]};
                    } else if (auto ph = dyn_cast<PHINode>(&I)) {
                        json::Array in;
                        for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i)
                            in.push_back(json::Array{BB[ph->getIncomingBlock(i)], operand(ph->getIncomingValue(i))});
                        o["in"] = std::move(in);
                    } else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
                        o["cleanup"] = lp->isCleanup();
                        for (unsigned i = 0; i < lp->getNumClauses(); ++i) ops.push_back(operand(lp->getClause(i)));
                    } else {
                        for (auto &op : I.operands()) ops.push_back(operand(op));
                        if (auto c = dyn_cast<CmpInst>(&I)) o["p"] = pred(c->getPredicate());
                        if (auto ev = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : ev->indices()) ix.push_back((int) i); o["ix"] = std::move(ix); }
                        if (auto iv = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : iv->indices()) ix.push_back((int) i); o["ix"] = std::move(ix); }
                        if (isa<CastInst>(&I)) o["ft"] = ty(I.getOperand(0)->getType());
                        if (isa<StoreInst>(&I)) { o["st"] = ty(I.getOperand(0)->getType()); }
                        if (isa<CmpInst>(&I)) o["ot"] = ty(I.getOperand(0)->getType());
                    }
                    o["o"] = std::move(ops);
                    ins.push_back(std::move(o));
                }
                blocks.push_back(std::move(ins));
            }
            fo["blocks"] = std::move(blocks);
        }
        funcs[F.getName().str()] = std::move(fo);
    }
    root["funcs"] = std::move(funcs);
    root["types"] = types(*M);
    json::Array fl; for (auto &f : FILELIST) fl.push_back(f);
    root["files"] = std::move(fl);
    os << json::Value(std::move(root));
    return 0;
}
