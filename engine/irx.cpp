// irx: reads LLVM bitcode/IR of one program, promotes scalar locals to SSA and
// writes a JSON description (functions, blocks, instructions, resolved field
// accesses, debug locations, constant initialisers, structure layouts).
// Nothing is executed; the output is the input of the Python analyses.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/CFG.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;
static std::map<std::string, std::map<uint64_t, std::string>> fieldNames; // struct -> byte offset -> field
static std::map<StructType *, std::string> usedStructs;

static std::string cleanStruct(StructType *st) {
    if (!st->hasName()) return "";
    std::string n = st->getName().str();
    for (const char *p : {"struct.", "union."})
        if (n.rfind(p, 0) == 0) n = n.substr(strlen(p));
    // drop the ".12" suffix the linker adds to duplicated types
    size_t d = n.rfind('.');
    if (d != std::string::npos && d + 1 < n.size() &&
        n.find_first_not_of("0123456789", d + 1) == std::string::npos)
        n = n.substr(0, d);
    return n;
}

static std::string tyStr(Type *t) {
    if (auto *st = dyn_cast<StructType>(t)) {
        auto n = cleanStruct(st);
        if (!n.empty()) { usedStructs[st] = n; return "%" + n; }
    }
    if (auto *at = dyn_cast<ArrayType>(t))
        return "[" + std::to_string(at->getNumElements()) + " x " + tyStr(at->getElementType()) + "]";
    std::string s; raw_string_ostream o(s); t->print(o, false, true); return o.str();
}

static json::Value opnd(const Value *v, int depth = 0);

static json::Value gepSteps(const GEPOperator *g, int depth) {
    json::Array steps;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        Value *idx = it.getOperand();
        if (StructType *st = it.getStructTypeOrNull()) {
            unsigned i = cast<ConstantInt>(idx)->getZExtValue();
            uint64_t off = DL->getStructLayout(st)->getElementOffset(i);
            std::string n = cleanStruct(st);
            if (!n.empty()) usedStructs[st] = n;
            std::string fn = "#" + std::to_string(i);
            auto f = fieldNames.find(n);
            if (f != fieldNames.end()) {
                auto o = f->second.find(off);
                if (o != f->second.end()) fn = o->second;
            }
            steps.push_back(json::Array{"f", n, fn, (int64_t) off,
                (int64_t) DL->getTypeAllocSize(st->getElementType(i)).getFixedValue()});
        } else {
            Type *et = it.getIndexedType();
            steps.push_back(json::Array{"x", opnd(idx, depth + 1), (int64_t) DL->getTypeAllocSize(et).getFixedValue()});
        }
    }
    return steps;
}

static json::Value opnd(const Value *v, int depth) {
    if (auto *c = dyn_cast<ConstantInt>(v)) {
        if (c->getBitWidth() <= 64)
            return json::Array{"c", c->getBitWidth() == 1 ? (int64_t) c->getZExtValue() : c->getSExtValue(), (int64_t) c->getBitWidth()};
        return json::Array{"u"};
    }
    if (isa<ConstantPointerNull>(v)) return json::Array{"n"};
    if (isa<UndefValue>(v)) return json::Array{"u"};
    if (isa<ConstantAggregateZero>(v)) return json::Array{"z"};
    if (auto *f = dyn_cast<ConstantFP>(v)) {
        double d = 0; bool li;
        APFloat a = f->getValueAPF(); a.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
        d = a.convertToDouble();
        if (!(d == d) || d > 1e300 || d < -1e300) d = 0;
        return json::Array{"fp", d};
    }
    if (auto *g = dyn_cast<GlobalValue>(v)) return json::Array{"g", g->getName().str()};
    if (auto *ce = dyn_cast<ConstantExpr>(v)) {
        if (depth > 8) return json::Array{"u"};
        if (auto *gep = dyn_cast<GEPOperator>(ce)) {
            return json::Array{"gep", opnd(gep->getPointerOperand(), depth + 1), gepSteps(gep, depth + 1)};
        }
        json::Array a{"e", ce->getOpcodeName()};
        for (auto &o : ce->operands()) a.push_back(opnd(o.get(), depth + 1));
        return a;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential>(v)) {
        if (cd->isString()) {
            std::string raw = cd->getAsString().str();
            return json::Array{"s", json::fixUTF8(raw), (int64_t) raw.size()};
        }
        json::Array a{"agg"};
        for (unsigned i = 0; i < cd->getNumElements(); i++) a.push_back(opnd(cd->getElementAsConstant(i), depth + 1));
        return a;
    }
    if (auto *ca = dyn_cast<ConstantAggregate>(v)) {
        json::Array a{"agg"};
        for (auto &o : ca->operands()) a.push_back(opnd(o.get(), depth + 1));
        return a;
    }
    if (auto *a = dyn_cast<Argument>(v)) return json::Array{"a", (int64_t) a->getArgNo()};
    if (auto *b = dyn_cast<BasicBlock>(v)) return json::Array{"b", (int64_t) bids[b]};
    if (isa<MetadataAsValue>(v)) return json::Array{"u"};
    auto it = ids.find(v);
    if (it != ids.end()) return json::Array{"i", (int64_t) it->second};
    return json::Array{"u"};
}

static const DIType *strip(const DIType *t) {
    while (t) {
        auto *d = dyn_cast<DIDerivedType>(t);
        if (!d) break;
        unsigned tag = d->getTag();
        if (tag == dwarf::DW_TAG_typedef || tag == dwarf::DW_TAG_const_type ||
            tag == dwarf::DW_TAG_volatile_type || tag == dwarf::DW_TAG_restrict_type) t = d->getBaseType();
        else break;
    }
    return t;
}

static std::string diName(const DIType *t, int depth = 0) {
    if (!t) return "void";
    if (depth > 6) return "?";
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        if (d->getTag() == dwarf::DW_TAG_pointer_type) return diName(d->getBaseType(), depth + 1) + "*";
        if (d->getTag() == dwarf::DW_TAG_typedef) {
            // named struct typedefs resolve to the struct's own name, so that typedef and tag agree
            const DIType *s = strip(d);
            if (s && isa<DICompositeType>(s) && !s->getName().empty()) return s->getName().str();
            return d->getName().str();
        }
        return diName(d->getBaseType(), depth + 1);
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        if (c->getTag() == dwarf::DW_TAG_array_type) return diName(c->getBaseType(), depth + 1) + "[]";
        return c->getName().str();
    }
    if (isa<DISubroutineType>(t)) return "fn";
    return t->getName().str();
}

static void collect(const DIType *t, std::set<const DIType *> &seen, json::Object &out) {
    if (!t || !seen.insert(t).second) return;
    if (auto *d = dyn_cast<DIDerivedType>(t)) {
        auto *b = d->getBaseType();
        // typedef of an anonymous struct: record it under the typedef name
        if (d->getTag() == dwarf::DW_TAG_typedef && b)
            if (auto *c = dyn_cast<DICompositeType>(b))
                if (c->getName().empty() && c->getTag() == dwarf::DW_TAG_structure_type)
                    for (auto *e : c->getElements())
                        if (auto *m = dyn_cast<DIDerivedType>(e))
                            fieldNames[d->getName().str()][m->getOffsetInBits() / 8] = m->getName().str();
        collect(b, seen, out);
        return;
    }
    if (auto *st = dyn_cast<DISubroutineType>(t)) {
        for (auto *x : st->getTypeArray()) collect(x, seen, out);
        return;
    }
    if (auto *c = dyn_cast<DICompositeType>(t)) {
        collect(c->getBaseType(), seen, out);
        if (c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) {
            json::Array fl;
            for (auto *e : c->getElements()) {
                if (auto *m = dyn_cast<DIDerivedType>(e)) {
                    if (!c->getName().empty() && !fieldNames[c->getName().str()].count(m->getOffsetInBits() / 8))
                        fieldNames[c->getName().str()][m->getOffsetInBits() / 8] = m->getName().str();
                    fl.push_back(json::Object{{"name", m->getName().str()}, {"off", (int64_t) m->getOffsetInBits() / 8},
                        {"size", (int64_t) m->getSizeInBits() / 8}, {"type", diName(m->getBaseType())},
                        {"stype", diName(strip(m->getBaseType()))}});
                    collect(m->getBaseType(), seen, out);
                }
            }
            if (!c->getName().empty() && !out.get(c->getName()))
                out[c->getName()] = json::Object{{"size", (int64_t) c->getSizeInBits() / 8}, {"fields", std::move(fl)},
                    {"union", c->getTag() == dwarf::DW_TAG_union_type}};
        } else if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
            for (auto *e : c->getElements())
                if (auto *en = dyn_cast<DIEnumerator>(e)) {
                    json::Object *eo = out.getObject("#enums");
                    if (!eo) { out["#enums"] = json::Object{}; eo = out.getObject("#enums"); }
                    (*eo)[en->getName()] = en->getValue().getSExtValue();
                }
        }
    }
}

int main(int argc, char **argv) {
    if (argc < 3) { errs() << "usage: irx OUT.json IN.bc...\n"; return 2; }
    LLVMContext ctx; SMDiagnostic err;
    std::unique_ptr<Module> M = parseIRFile(argv[2], err, ctx);
    if (!M) { err.print("irx", errs()); return 2; }
    for (int i = 3; i < argc; i++) {
        auto m = parseIRFile(argv[i], err, ctx);
        if (!m) { err.print("irx", errs()); return 2; }
        if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << argv[i] << "\n"; return 2; }
    }
    DL = &M->getDataLayout();
    {
        LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PassBuilder PB; PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM);
        PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        FunctionPassManager FPM; FPM.addPass(PromotePass());
        ModulePassManager MPM; MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(*M, MAM);
    }
    json::Object structs; std::set<const DIType *> seen;
    DebugInfoFinder F; F.processModule(*M);
    for (auto *t : F.types()) collect(t, seen, structs);

    json::Object out, funcs, globals;
    for (auto &g : M->globals()) {
        json::Object o;
        o["type"] = tyStr(g.getValueType());
        o["const"] = g.isConstant();
        o["size"] = (int64_t) (g.getValueType()->isSized() ? DL->getTypeAllocSize(g.getValueType()).getFixedValue() : 0);
        if (g.hasInitializer()) o["init"] = opnd(g.getInitializer());
        SmallVector<DIGlobalVariableExpression *, 1> gv; g.getDebugInfo(gv);
        if (!gv.empty()) { o["file"] = gv[0]->getVariable()->getFilename().str(); o["line"] = (int64_t) gv[0]->getVariable()->getLine(); o["ditype"] = diName(strip(gv[0]->getVariable()->getType())); }
        globals[g.getName()] = std::move(o);
    }
    for (auto &fn : *M) {
        json::Object fo;
        fo["decl"] = fn.isDeclaration();
        fo["ret"] = tyStr(fn.getReturnType());
        fo["vararg"] = fn.isVarArg();
        fo["internal"] = fn.hasInternalLinkage();
        json::Array params;
        ids.clear(); bids.clear();
        auto *sp = fn.getSubprogram();
        std::map<unsigned, std::string> pn, pt;
        if (sp) {
            fo["file"] = sp->getFilename().str(); fo["line"] = (int64_t) sp->getLine();
            fo["dir"] = sp->getFile() ? sp->getFile()->getDirectory().str() : "";
            if (auto *st = sp->getType()) { auto ta = st->getTypeArray(); if (ta.size()) fo["diret"] = diName(ta[0]); 
                json::Array dp; for (unsigned i = 1; i < ta.size(); i++) dp.push_back(diName(ta[i])); fo["diparams"] = std::move(dp); }
        }
        for (auto &a : fn.args()) {
            json::Object p{{"type", tyStr(a.getType())}, {"name", a.getName().str()}};
            if (a.hasStructRetAttr()) p["sret"] = true;
            if (a.hasByValAttr()) p["byval"] = true;
            params.push_back(std::move(p));
        }
        fo["params"] = std::move(params);
        if (!fn.isDeclaration()) {
            int n = 0, b = 0;
            for (auto &bb : fn) { bids[&bb] = b++; for (auto &i : bb) ids[&i] = n++; }
            json::Array blocks;
            for (auto &bb : fn) {
                json::Array ins;
                for (auto &i : bb) {
                    if (isa<DbgLabelInst>(i)) continue;
                    json::Object o;
                    o["id"] = ids[&i];
                    o["op"] = i.getOpcodeName();
                    if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
                        o["op"] = "dbg";
                        o["var"] = dv->getVariable()->getName().str();
                        o["argno"] = (int64_t) dv->getVariable()->getArg();
                        o["dity"] = diName(dv->getVariable()->getType());
                        if (dv->getNumVariableLocationOps() == 1 && dv->getVariableLocationOp(0)) o["ops"] = json::Array{opnd(dv->getVariableLocationOp(0))};
                        ins.push_back(std::move(o));
                        continue;
                    }
                    if (!i.getType()->isVoidTy()) { o["ty"] = tyStr(i.getType());
                        if (i.getType()->isSized()) o["sz"] = (int64_t) DL->getTypeStoreSize(i.getType()).getFixedValue(); }
                    json::Array ops;
                    if (auto *p = dyn_cast<PHINode>(&i)) {
                        for (unsigned k = 0; k < p->getNumIncomingValues(); k++)
                            ops.push_back(json::Array{opnd(p->getIncomingValue(k)), (int64_t) bids[p->getIncomingBlock(k)]});
                    } else if (auto *c = dyn_cast<CallBase>(&i)) {
                        for (auto &a : c->args()) ops.push_back(opnd(a.get()));
                        o["callee"] = opnd(c->getCalledOperand());
                        json::Array at; bool any = false;
                        for (unsigned k = 0; k < c->arg_size(); k++) {
                            std::string s = c->paramHasAttr(k, Attribute::ByVal) ? "byval" : c->paramHasAttr(k, Attribute::StructRet) ? "sret" : "";
                            if (!s.empty()) any = true;
                            at.push_back(s);
                        }
                        if (any) o["attrs"] = std::move(at);
                    } else {
                        for (auto &a : i.operands()) ops.push_back(opnd(a.get()));
                    }
                    o["ops"] = std::move(ops);
                    if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
                        o["steps"] = gepSteps(cast<GEPOperator>(g), 0);
                        o["src"] = tyStr(g->getSourceElementType());
                    } else if (auto *c = dyn_cast<CmpInst>(&i)) {
                        o["pred"] = CmpInst::getPredicateName(c->getPredicate()).str();
                        o["oty"] = tyStr(c->getOperand(0)->getType());
                    } else if (auto *a = dyn_cast<AllocaInst>(&i)) {
                        o["aty"] = tyStr(a->getAllocatedType());
                        o["asz"] = (int64_t) DL->getTypeAllocSize(a->getAllocatedType()).getFixedValue();
                        if (!a->isStaticAlloca() || a->isArrayAllocation()) o["dyn"] = true;
                    } else if (auto *s = dyn_cast<SwitchInst>(&i)) {
                        json::Array cs;
                        for (auto c : s->cases()) cs.push_back(json::Array{c.getCaseValue()->getSExtValue(), (int64_t) bids[c.getCaseSuccessor()]});
                        o["cases"] = std::move(cs);
                        o["default"] = (int64_t) bids[s->getDefaultDest()];
                    } else if (auto *br = dyn_cast<BranchInst>(&i)) {
                        json::Array su;
                        for (unsigned k = 0; k < br->getNumSuccessors(); k++) su.push_back((int64_t) bids[br->getSuccessor(k)]);
                        o["succ"] = std::move(su);
                    } else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
                        json::Array ix; for (auto k : ev->indices()) ix.push_back((int64_t) k); o["idx"] = std::move(ix);
                    } else if (auto *iv = dyn_cast<InsertValueInst>(&i)) {
                        json::Array ix; for (auto k : iv->indices()) ix.push_back((int64_t) k); o["idx"] = std::move(ix);
                    } else if (auto *cs = dyn_cast<CastInst>(&i)) {
                        o["from"] = tyStr(cs->getSrcTy());
                    } else if (auto *si = dyn_cast<StoreInst>(&i)) {
                        o["vty"] = tyStr(si->getValueOperand()->getType());
                        o["vsz"] = (int64_t) DL->getTypeStoreSize(si->getValueOperand()->getType()).getFixedValue();
                        if (auto *st = dyn_cast<StructType>(si->getValueOperand()->getType())) {
                            json::Array eo; for (unsigned k = 0; k < st->getNumElements(); k++) eo.push_back((int64_t) DL->getStructLayout(st)->getElementOffset(k));
                            o["eoff"] = std::move(eo);
                        }
                    }
                    if (auto *li = dyn_cast<LoadInst>(&i)) {
                        if (auto *st = dyn_cast<StructType>(li->getType())) {
                            json::Array eo; for (unsigned k = 0; k < st->getNumElements(); k++) eo.push_back((int64_t) DL->getStructLayout(st)->getElementOffset(k));
                            o["eoff"] = std::move(eo);
                        }
                    }
                    if (auto &dl = i.getDebugLoc()) {
                        auto *sc = cast<DIScope>(dl.getScope());
                        o["line"] = (int64_t) dl.getLine(); o["col"] = (int64_t) dl.getCol(); o["file"] = sc->getFilename().str();
                    }
                    ins.push_back(std::move(o));
                }
                blocks.push_back(std::move(ins));
            }
            fo["blocks"] = std::move(blocks);
        }
        funcs[fn.getName()] = std::move(fo);
    }
    out["structs"] = std::move(structs);
    json::Object ir;
    for (auto &p : usedStructs) {
        if (p.first->isOpaque()) continue;
        json::Array el; auto *sl = DL->getStructLayout(p.first);
        for (unsigned k = 0; k < p.first->getNumElements(); k++)
            el.push_back(json::Array{(int64_t) sl->getElementOffset(k), tyStr(p.first->getElementType(k)), (int64_t) DL->getTypeAllocSize(p.first->getElementType(k)).getFixedValue()});
        ir[p.second] = json::Object{{"size", (int64_t) sl->getSizeInBytes()}, {"elems", std::move(el)}};
    }
    out["irstructs"] = std::move(ir);
    out["globals"] = std::move(globals);
    out["functions"] = std::move(funcs);
    std::error_code ec; raw_fd_ostream os(argv[1], ec);
    if (ec) { errs() << ec.message() << "\n"; return 2; }
    os << json::Value(std::move(out)) << "\n";
    return 0;
}
