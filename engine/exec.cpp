#include "exec.h"
using namespace llvm;
Aig G;

int Engine::width(Type* t) {
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isPointerTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isDoubleTy()) return 64;
    if (auto* s = dyn_cast<StructType>(t)) { int w = 0; for (Type* e : s->elements()) w += width(e); return w; }
    if (auto* a = dyn_cast<ArrayType>(t)) return a->getNumElements() * width(a->getElementType());
    if (auto* v = dyn_cast<FixedVectorType>(t)) return v->getNumElements() * width(v->getElementType());
    if (t->isVoidTy()) return 0;
    std::string s; raw_string_ostream o(s); t->print(o);
    throw Unsupported("type " + o.str());
}
int Engine::elemOff(Type* t, unsigned i, Type** et) {
    int off = 0;
    if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += width(s->getElementType(k)); *et = s->getElementType(i); return off; }
    if (auto* a = dyn_cast<ArrayType>(t)) { *et = a->getElementType(); return i * width(*et); }
    if (auto* a = dyn_cast<FixedVectorType>(t)) { *et = a->getElementType(); return i * width(*et); }
    throw Unsupported("elemOff");
}

// ---- globals and constants -----------------------------------------------------------------------
uint64_t Engine::addrOf(const GlobalValue* g) {
    auto it = gaddr.find(g);
    if (it != gaddr.end()) return it->second;
    if (auto* al = dyn_cast<GlobalAlias>(g)) { uint64_t a = addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts())); gaddr[g] = a; return a; }
    if (auto* fn = dyn_cast<Function>(g)) { uint64_t a = codeTop; codeTop += 16; gaddr[g] = a; fnAt[a] = fn; return a; }
    auto* v = cast<GlobalVariable>(g);
    uint64_t sz = DL->getTypeAllocSize(v->getValueType()), al = std::max<uint64_t>(16, v->getAlign().valueOrOne().value());
    if (v->isDeclaration()) sz = std::max<uint64_t>(sz, 64);
    globalTop = (globalTop + al - 1) / al * al;
    uint64_t a = globalTop; globalTop += sz + 16;
    gaddr[g] = a;
    newObj(a, sz, O_GLOBAL, v->isConstant(), v->getName().str());
    if (v->hasInitializer()) initGlobal(a, v->getInitializer());
    return a;
}
void Engine::initGlobal(uint64_t a, const Constant* c) {
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (auto* s = dyn_cast<StructType>(t)) {
        auto* sl = DL->getStructLayout(s);
        if (c->isNullValue()) { rawStore(base, a, bvc(DL->getTypeAllocSize(t) * 8, 0)); return; }
        for (unsigned i = 0; i < s->getNumElements(); i++) initGlobal(a + sl->getElementOffset(i), c->getAggregateElement(i));
    } else if (auto* ar = dyn_cast<ArrayType>(t)) {
        uint64_t es = DL->getTypeAllocSize(ar->getElementType());
        if (c->isNullValue()) { rawStore(base, a, bvc(DL->getTypeAllocSize(t) * 8, 0)); return; }
        for (unsigned i = 0; i < ar->getNumElements(); i++) initGlobal(a + i * es, c->getAggregateElement(i));
    } else {
        BV v = constant(c);
        v = bvZext(v, DL->getTypeStoreSize(t) * 8);
        rawStore(base, a, v);
    }
}
BV Engine::constant(const Constant* c) {
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c)) { APInt const& v = ci->getValue(); BV r(v.getBitWidth()); for (unsigned i = 0; i < r.size(); i++) r[i] = v[i]; return r; }
    if (isa<ConstantPointerNull>(c)) return bvc(64, 0);
    if (isa<UndefValue>(c)) return bvFresh(width(t));
    if (auto* fp = dyn_cast<ConstantFP>(c)) { APInt v = fp->getValueAPF().bitcastToAPInt(); BV r(v.getBitWidth()); for (unsigned i = 0; i < r.size(); i++) r[i] = v[i]; return r; }
    if (auto* g = dyn_cast<GlobalValue>(c)) return bvc(64, addrOf(g));
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (auto* gp = dyn_cast<GEPOperator>(ce)) return gep(nullptr, gp);
        if (ce->isCast()) return castop(ce->getOpcode(), constant(ce->getOperand(0)), width(t));
        if (Instruction::isBinaryOp(ce->getOpcode())) return binop(ce->getOpcode(), constant(ce->getOperand(0)), constant(ce->getOperand(1)));
        if (ce->getOpcode() == Instruction::ICmp) return BV(1, icmp((CmpInst::Predicate)ce->getPredicate(), constant(ce->getOperand(0)), constant(ce->getOperand(1))));
        if (ce->getOpcode() == Instruction::Select) return bvMux(constant(ce->getOperand(0))[0], constant(ce->getOperand(1)), constant(ce->getOperand(2)));
    }
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
        BV r; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) { BV e = constant(c->getAggregateElement(i)); r.insert(r.end(), e.begin(), e.end()); }
        return r;
    }
    std::string s; raw_string_ostream o(s); c->print(o);
    throw Unsupported("constant " + o.str());
}
BV Engine::val(Frame& f, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constant(c);
    auto it = f.env.find(v);
    if (it == f.env.end()) { std::string s; raw_string_ostream o(s); v->print(o); throw Unsupported("value not defined: " + o.str() + " in " + f.fn->getName().str()); }
    if (it->second.empty()) it->second = bvFresh(width(v->getType()));    // undef, used for something else than another phi
    return it->second;
}
BV Engine::gep(Frame* f, const GEPOperator* g) {
    auto get = [&](const Value* v) { return f ? val(*f, v) : constant(cast<Constant>(v)); };
    BV a = get(g->getPointerOperand());
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
        const Value* ix = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull()) {
            uint64_t o = DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
            if (o) a = bvAdd(a, bvc(64, o));
        } else {
            BV i = get(ix); i = i.size() < 64 ? bvSext(i, 64) : bvTrunc(i, 64);
            uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
            if (bvConst(i)) { uint64_t o = bvVal(i) * sz; if (o) a = bvAdd(a, bvc(64, o)); }
            else a = bvAdd(a, bvMul(i, bvc(64, sz)));
        }
    }
    return a;
}
BV Engine::binop(unsigned op, BV const& a, BV const& b) {
    switch (op) {
    case Instruction::Add: return bvAdd(a, b);
    case Instruction::Sub: return bvSub(a, b);
    case Instruction::Mul: return bvMul(a, b);
    case Instruction::And: return bvAnd(a, b);
    case Instruction::Or: return bvOr(a, b);
    case Instruction::Xor: return bvXor(a, b);
    case Instruction::Shl: return bvShift(a, b, 0);
    case Instruction::LShr: return bvShift(a, b, 1);
    case Instruction::AShr: return bvShift(a, b, 2);
    case Instruction::UDiv: case Instruction::URem: { BV q, r; bvUdivrem(a, b, q, r); return op == Instruction::UDiv ? q : r; }
    case Instruction::SDiv: case Instruction::SRem: {
        // exact pointer differences divide by a power of two most of the time
        if (bvConst(b)) {
            uint64_t v = bvVal(b);
            if (v && !(v & (v - 1)) && a.size() <= 64 && op == Instruction::SDiv) {
                int k = __builtin_ctzll(v); BV bias(a.size(), F); for (int i = 0; i < k; i++) bias[i] = a.back();
                return bvShrC(bvAdd(a, bias), k, bvAdd(a, bias).back());
            }
        }
        Lit sa = a.back(), sb = b.back(); BV q, r;
        bvUdivrem(bvMux(sa, bvNeg(a), a), bvMux(sb, bvNeg(b), b), q, r);
        return op == Instruction::SDiv ? bvMux(G.XOR(sa, sb), bvNeg(q), q) : bvMux(sa, bvNeg(r), r);
    }
    }
    throw Unsupported(std::string("binary operator ") + Instruction::getOpcodeName(op));
}
BV Engine::castop(unsigned op, BV const& a, int w) {
    switch (op) {
    case Instruction::Trunc: return bvTrunc(a, w);
    case Instruction::ZExt: return bvZext(a, w);
    case Instruction::SExt: return bvSext(a, w);
    case Instruction::PtrToInt: case Instruction::IntToPtr: return (int)a.size() < w ? bvZext(a, w) : bvTrunc(a, w);
    case Instruction::BitCast: return a;
    }
    throw Unsupported(std::string("cast ") + Instruction::getOpcodeName(op));
}
Lit Engine::icmp(CmpInst::Predicate p, BV const& a, BV const& b) {
    switch (p) {
    case CmpInst::ICMP_EQ: return bvEq(a, b);
    case CmpInst::ICMP_NE: return neg(bvEq(a, b));
    case CmpInst::ICMP_ULT: return bvUlt(a, b);
    case CmpInst::ICMP_ULE: return bvUle(a, b);
    case CmpInst::ICMP_UGT: return bvUlt(b, a);
    case CmpInst::ICMP_UGE: return bvUle(b, a);
    case CmpInst::ICMP_SLT: return bvSlt(a, b);
    case CmpInst::ICMP_SLE: return neg(bvSlt(b, a));
    case CmpInst::ICMP_SGT: return bvSlt(b, a);
    case CmpInst::ICMP_SGE: return neg(bvSlt(a, b));
    default: throw Unsupported("icmp");
    }
}

// ---- control flow --------------------------------------------------------------------------------
Engine::FnInfo& Engine::info(const Function* Fn) {
    auto& p = finfo[Fn];
    if (p) return *p;
    p.reset(new FnInfo);
    FnInfo& fi = *p;
    Function& F2 = const_cast<Function&>(*Fn);
    fi.dt.recalculate(F2); fi.li.analyze(fi.dt);
    ReversePostOrderTraversal<const Function*> rpo(Fn);
    int k = 0; std::vector<const BasicBlock*> order;
    for (const BasicBlock* b : rpo) { fi.rpo[b] = k++; order.push_back(b); }
    std::function<void(std::vector<Item>&, const Loop*)> build = [&](std::vector<Item>& out, const Loop* L) {
        for (const BasicBlock* b : order) {
            const Loop* bl = fi.li.getLoopFor(b);
            if (bl == L) out.push_back({b, nullptr, {}});
            else if (bl && bl->getHeader() == b && bl->getParentLoop() == L) { Item it{nullptr, bl, {}}; build(it.body, bl); out.push_back(std::move(it)); }
        }
    };
    build(fi.top, nullptr);
    for (auto& b : *Fn) for (auto& i : b) if (auto* a = dyn_cast<AllocaInst>(&i)) fi.allocas.push_back(a);
    return fi;
}
void Engine::addPending(Pending& p, State&& s, std::vector<std::pair<const PHINode*, BV>>&& phi) {
    if (!p.has) { p.has = true; p.s = std::move(s); p.phi = std::move(phi); return; }
    Lit sel = mergeInto(p.s, std::move(s));
    for (size_t i = 0; i < p.phi.size(); i++) p.phi[i].second = mergeBV(sel, p.phi[i].second, phi[i].second);
}
void Engine::edge(Frame& f, const BasicBlock* from, const BasicBlock* to, State&& s, const Loop* L, Pending* next) {
    if (s.g == F) return;
    for (auto& l : f.loops) if (!l.first->contains(to)) l.second = true;
    std::vector<std::pair<const PHINode*, BV>> phi;
    for (auto& p : to->phis()) { const Value* in = p.getIncomingValueForBlock(from); phi.emplace_back(&p, isa<UndefValue>(in) ? BV() : isa<PHINode>(in) && f.env.count(in) ? f.env[in] : val(f, in)); }   // undef merges into the other value
    if (L && to == L->getHeader()) addPending(*next, std::move(s), std::move(phi));
    else addPending(f.pend[to], std::move(s), std::move(phi));
}
void Engine::region(Frame& f, std::vector<Item> const& items, const Loop* L, Pending* next) {
    for (auto& it : items) {
        const BasicBlock* h = it.loop ? it.loop->getHeader() : it.bb;
        auto pi = f.pend.find(h);
        if (pi == f.pend.end() || !pi->second.has) continue;
        Pending p = std::move(pi->second);
        f.pend.erase(pi);
        if (!it.loop) { block(f, h, std::move(p), L, next); continue; }
        int sym = 0; long iters = 0;
        for (;;) {
            f.pend[h] = std::move(p);
            Pending nx;
            f.loops.push_back({it.loop, false});
            region(f, it.body, it.loop, &nx);
            bool left = f.loops.back().second; f.loops.pop_back();
            if (!nx.has || nx.s.g == F) break;
            ++iters;
            auto at = [&] { return where(&*h->getFirstNonPHIOrDbg()); };
            if (phase == 2 && iters >= finUnwind) { bad(nx.s, T, "an operation does not terminate although nothing runs concurrently (loop in " + f.fn->getName().str() + ")", &*h->getFirstNonPHIOrDbg()); break; }
            if (phase == 1 && iters >= 400) { exceeds.push_back({nx.s.g, "endless loop in " + f.fn->getName().str(), at(), cur}); break; }
            if (iters > maxIter) { if (phase == 0 && cur < 0) { bad(nx.s, T, "endless loop in " + f.fn->getName().str(), &*h->getFirstNonPHIOrDbg()); break; } throw Unsupported("loop runs for too long"); }
            if (left) {                                  // some path left the loop: the number of iterations is symbolic
                if (seqPrune && !feas.maybe(nx.s.g)) break;
                if (++sym >= unwind) { exceeds.push_back({nx.s.g, "loop bound exceeded in " + f.fn->getName().str(), at(), cur}); break; }
            }
            p = std::move(nx);
        }
    }
}
void Engine::addRet(Frame& f, State&& s, BV v) {
    Outcome& o = f.out;
    if (!o.ret) { o.ret = true; o.rs = std::move(s); o.rv = std::move(v); return; }
    Lit sel = mergeInto(o.rs, std::move(s));
    if (!v.empty()) o.rv = bvMux(sel, o.rv, v);
}
void Engine::addExc(Frame& f, State&& s) {
    Outcome& o = f.out;
    if (!o.exc) { o.exc = true; o.es = std::move(s); return; }
    mergeInto(o.es, std::move(s));
}
Engine::Outcome Engine::call(const Function* Fn, std::vector<BV> const& args, State&& s, const Instruction* site) {
    if (++depth > 200) throw Unsupported("recursion too deep in " + Fn->getName().str());
    funcs.insert(Fn->getName().str());
    FnInfo& fi = info(Fn);
    Frame f; f.fn = Fn; f.fi = &fi; f.callSite = site;
    unsigned i = 0; for (auto& a : Fn->args()) f.env[&a] = args[i++];
    uint64_t& sp = stackTop[cur + 1]; uint64_t sp0 = sp; std::vector<uint64_t> stk;
    for (auto* a : fi.allocas) {
        uint64_t n = isa<ConstantInt>(a->getArraySize()) ? cast<ConstantInt>(a->getArraySize())->getZExtValue() : throw Unsupported("dynamic alloca");
        uint64_t sz = DL->getTypeAllocSize(a->getAllocatedType()) * n, al = std::max<uint64_t>(16, a->getAlign().value());
        sp = (sp + al - 1) / al * al;
        newObj(sp, sz, O_STACK, false, a->getName().str(), cur); stk.push_back(sp);
        f.env[a] = bvc(64, sp);
        sp += sz + 16;
    }
    Pending p; p.has = true; p.s = std::move(s);
    f.pend[&Fn->getEntryBlock()] = std::move(p);
    region(f, fi.top, nullptr, nullptr);
    // release the frame
    auto drop = [&](State& st) {
        for (uint64_t a = (sp0 + 63) & ~63ull; a + 64 <= sp; a += 64) {
            int c = cidx(a); if (c >= (int)st.mem.size() || !st.mem[c] || !st.mem[c]->p[(a >> 6) & 63]) continue;
            if (st.mem[c].use_count() > 1) st.mem[c] = std::make_shared<Chunk>(*st.mem[c]);
            st.mem[c]->p[(a >> 6) & 63].reset();
        }
    };
    if (f.out.ret) drop(f.out.rs);
    if (f.out.exc) drop(f.out.es);
    for (uint64_t a : stk) byBase.erase(a);
    sp = sp0;
    depth--;
    return std::move(f.out);
}
bool Engine::simple(Frame& f, const Instruction& I, State& s) {
    auto set = [&](BV v) { f.env[&I] = std::move(v); };
    if (auto* b = dyn_cast<BinaryOperator>(&I)) {
        BV x = val(f, b->getOperand(0)), y = val(f, b->getOperand(1));
        if (b->getType()->isVectorTy()) {
            Type* et = b->getType()->getScalarType(); int w = width(et); BV r;
            for (size_t i = 0; i < x.size(); i += w) { BV e = binop(b->getOpcode(), bvSlice(x, i, w), bvSlice(y, i, w)); r.insert(r.end(), e.begin(), e.end()); }
            set(r); return true;
        }
        if (b->getType()->isFloatingPointTy()) throw Unsupported("floating point arithmetic");
        if (b->getOpcode() == Instruction::UDiv || b->getOpcode() == Instruction::SDiv || b->getOpcode() == Instruction::URem || b->getOpcode() == Instruction::SRem)
            bad(s, bvEq(y, bvc(y.size(), 0)), "division by zero", &I);
        set(binop(b->getOpcode(), x, y)); return true;
    }
    if (auto* c = dyn_cast<ICmpInst>(&I)) {
        if (c->getOperand(0)->getType()->isVectorTy()) throw Unsupported("vector compare");
        set(BV(1, icmp(c->getPredicate(), val(f, c->getOperand(0)), val(f, c->getOperand(1))))); return true;
    }
    if (auto* c = dyn_cast<CastInst>(&I)) {
        if (c->getType()->isVectorTy() || c->getOperand(0)->getType()->isVectorTy()) { if (c->getOpcode() != Instruction::BitCast) throw Unsupported("vector cast"); }
        if (c->getType()->isFloatingPointTy() != c->getOperand(0)->getType()->isFloatingPointTy() && c->getOpcode() != Instruction::BitCast) throw Unsupported("floating point conversion");
        if (c->getType()->isFloatingPointTy() && c->getOpcode() != Instruction::BitCast) throw Unsupported("floating point conversion");
        set(castop(c->getOpcode(), val(f, c->getOperand(0)), width(c->getType()))); return true;
    }
    if (auto* g = dyn_cast<GetElementPtrInst>(&I)) { set(gep(&f, cast<GEPOperator>(g))); return true; }
    if (auto* c = dyn_cast<SelectInst>(&I)) { if (c->getCondition()->getType()->isVectorTy()) throw Unsupported("vector select"); set(bvMux(val(f, c->getCondition())[0], val(f, c->getTrueValue()), val(f, c->getFalseValue()))); return true; }
    if (auto* e = dyn_cast<ExtractValueInst>(&I)) {
        Type* t = e->getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e->indices()) { Type* et; off += elemOff(t, ix, &et); t = et; }
        set(bvSlice(val(f, e->getAggregateOperand()), off, width(t))); return true;
    }
    if (auto* e = dyn_cast<InsertValueInst>(&I)) {
        Type* t = e->getAggregateOperand()->getType(); int off = 0; for (unsigned ix : e->indices()) { Type* et; off += elemOff(t, ix, &et); t = et; }
        BV a = val(f, e->getAggregateOperand()), v = val(f, e->getInsertedValueOperand());
        for (size_t i = 0; i < v.size(); i++) a[off + i] = v[i];
        set(a); return true;
    }
    if (auto* e = dyn_cast<ExtractElementInst>(&I)) { int w = width(e->getType()); BV i = val(f, e->getIndexOperand()); if (!bvConst(i)) throw Unsupported("extractelement"); set(bvSlice(val(f, e->getVectorOperand()), bvVal(i) * w, w)); return true; }
    if (auto* e = dyn_cast<InsertElementInst>(&I)) { int w = width(e->getOperand(1)->getType()); BV i = val(f, e->getOperand(2)); if (!bvConst(i)) throw Unsupported("insertelement"); BV a = val(f, e->getOperand(0)), v = val(f, e->getOperand(1)); for (int k = 0; k < w; k++) a[bvVal(i) * w + k] = v[k]; set(a); return true; }
    if (isa<FreezeInst>(&I)) { set(val(f, I.getOperand(0))); return true; }
    if (auto* l = dyn_cast<LoadInst>(&I)) {
        BV a = val(f, l->getPointerOperand()); int w = width(l->getType()), n = DL->getTypeStoreSize(l->getType());
        align(s, a, l->getAlign().value(), &I);
        if (l->getType()->isAggregateType()) {
            std::function<BV(Type*, BV const&)> ld = [&](Type* t, BV const& ad) -> BV {
                if (auto* st = dyn_cast<StructType>(t)) { BV r; for (unsigned i = 0; i < st->getNumElements(); i++) { BV e = ld(st->getElementType(i), bvAdd(ad, bvc(64, DL->getStructLayout(st)->getElementOffset(i)))); r.insert(r.end(), e.begin(), e.end()); } return r; }
                if (auto* ar = dyn_cast<ArrayType>(t)) { BV r; for (unsigned i = 0; i < ar->getNumElements(); i++) { BV e = ld(ar->getElementType(), bvAdd(ad, bvc(64, i * DL->getTypeAllocSize(ar->getElementType())))); r.insert(r.end(), e.begin(), e.end()); } return r; }
                return bvTrunc(load(s, ad, DL->getTypeStoreSize(t), AtomicOrdering::NotAtomic, &I), width(t));
            };
            set(ld(l->getType(), a)); return true;
        }
        set(bvTrunc(load(s, a, n, l->getOrdering(), &I), w)); return true;
    }
    if (auto* st = dyn_cast<StoreInst>(&I)) {
        BV a = val(f, st->getPointerOperand()), v = val(f, st->getValueOperand()); Type* t0 = st->getValueOperand()->getType();
        align(s, a, st->getAlign().value(), &I);
        if (t0->isAggregateType()) {
            int pos = 0;
            std::function<void(Type*, BV const&)> sto = [&](Type* t, BV const& ad) {
                if (auto* sx = dyn_cast<StructType>(t)) { for (unsigned i = 0; i < sx->getNumElements(); i++) sto(sx->getElementType(i), bvAdd(ad, bvc(64, DL->getStructLayout(sx)->getElementOffset(i)))); return; }
                if (auto* ar = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < ar->getNumElements(); i++) sto(ar->getElementType(), bvAdd(ad, bvc(64, i * DL->getTypeAllocSize(ar->getElementType())))); return; }
                int w = width(t); store(s, ad, bvZext(bvSlice(v, pos, w), DL->getTypeStoreSize(t) * 8), AtomicOrdering::NotAtomic, &I); pos += w;
            };
            sto(t0, a); return true;
        }
        store(s, a, bvZext(v, DL->getTypeStoreSize(t0) * 8), st->getOrdering(), &I); return true;
    }
    if (auto* c = dyn_cast<AtomicCmpXchgInst>(&I)) {
        BV a = val(f, c->getPointerOperand()), ex = val(f, c->getCompareOperand()), nv = val(f, c->getNewValOperand());
        align(s, a, c->getAlign().value(), &I);
        Lit ok; int w = ex.size();
        BV old = rmw(s, a, w / 8, c->getSuccessOrdering(), c->getFailureOrdering(), &I, [&](BV const& o, BV& n, Lit& wr) {
            n = nv; wr = bvEq(o, ex);
            if (c->isWeak() && spurious > 0) { Lit sp = G.input(); spuriousLits.push_back(G.AND(s.g, sp)); wr = G.AND(wr, neg(sp)); }
        }, &ok);
        BV r = old; r.push_back(ok); set(r); return true;
    }
    if (auto* r = dyn_cast<AtomicRMWInst>(&I)) {
        BV a = val(f, r->getPointerOperand()), v = val(f, r->getValOperand());
        align(s, a, r->getAlign().value(), &I);
        Lit ok;
        BV old = rmw(s, a, v.size() / 8, r->getOrdering(), r->getOrdering(), &I, [&](BV const& o, BV& n, Lit& wr) {
            wr = T;
            switch (r->getOperation()) {
            case AtomicRMWInst::Xchg: n = v; break;
            case AtomicRMWInst::Add: n = bvAdd(o, v); break;
            case AtomicRMWInst::Sub: n = bvSub(o, v); break;
            case AtomicRMWInst::And: n = bvAnd(o, v); break;
            case AtomicRMWInst::Or: n = bvOr(o, v); break;
            case AtomicRMWInst::Xor: n = bvXor(o, v); break;
            case AtomicRMWInst::UMax: n = bvMux(bvUlt(o, v), v, o); break;
            case AtomicRMWInst::UMin: n = bvMux(bvUlt(o, v), o, v); break;
            default: throw Unsupported("atomicrmw");
            }
        }, &ok);
        set(old); return true;
    }
    if (auto* fe = dyn_cast<FenceInst>(&I)) {
        if (phase == 1 && cur >= 0) { Event& e = newEvent(s, E_FENCE, &I); e.acq = isAcquireOrStronger(fe->getOrdering()) ? T : F; e.rel = isReleaseOrStronger(fe->getOrdering()) ? T : F; e.what = "fence"; }
        return true;
    }
    if (isa<AllocaInst>(&I)) {
        return true;
    }
    return false;
}
void Engine::block(Frame& f, const BasicBlock* bb, Pending&& p, const Loop* L, Pending* next) {
    for (auto& ph : p.phi) f.env[ph.first] = ph.second;
    State s = std::move(p.s);
    for (auto& I : *bb) {
        if (isa<PHINode>(&I)) continue;
        if (s.g == F) return;
        steps++;
        if (!I.isTerminator()) {
            if (auto* C = dyn_cast<CallBase>(&I)) { Outcome ex; bool ok = doCall(f, *C, s, &ex); if (ex.exc) addExc(f, std::move(ex.es)); if (!ok) return; continue; }
            if (auto* lp = dyn_cast<LandingPadInst>(&I)) {
                BV sel = bvc(32, 0); Lit any = F;
                for (int i = (int)lp->getNumClauses() - 1; i >= 0; i--) {
                    Lit m; BV id;
                    if (lp->isCatch(i)) { const Constant* c = lp->getClause(i); m = c->isNullValue() ? T : typeMatches(s, s.exn.type, c); id = c->isNullValue() ? bvc(32, 1) : bvTrunc(constant(c), 32); }
                    else { m = T; id = bvc(32, (uint64_t)-1); }
                    sel = bvMux(m, id, sel); any = G.OR(any, m);
                }
                if (!lp->isCleanup() && any != T) { State e = s; e.g = G.AND(s.g, neg(any)); if (e.g != F) addExc(f, std::move(e)); s.g = G.AND(s.g, any); if (s.g == F) return; }
                BV r = s.exn.obj; r.insert(r.end(), sel.begin(), sel.end());
                f.env[&I] = r; continue;
            }
            if (!simple(f, I, s)) { std::string m; raw_string_ostream o(m); I.print(o); throw Unsupported("instruction " + o.str()); }
            continue;
        }
        if (auto* br = dyn_cast<BranchInst>(&I)) {
            if (br->isUnconditional()) { edge(f, bb, br->getSuccessor(0), std::move(s), L, next); return; }
            Lit c = val(f, br->getCondition())[0];
            if (br->getSuccessor(0) == br->getSuccessor(1)) { edge(f, bb, br->getSuccessor(0), std::move(s), L, next); return; }
            Lit gt = G.AND(s.g, c), gf = G.AND(s.g, neg(c));
            if (gt != F && gf != F) {
                branches++;
                if (seqPrune) { if (!feas.maybe(gt, 300)) { gt = F; gf = s.g; } else if (!feas.maybe(gf, 300)) { gf = F; gt = s.g; } }
            }
            State t2;
            if (gt != F && gf != F) t2 = s;
            if (gt != F) { if (gf != F) { t2.g = gt; edge(f, bb, br->getSuccessor(0), std::move(t2), L, next); } else { s.g = gt; edge(f, bb, br->getSuccessor(0), std::move(s), L, next); } }
            if (gf != F) { s.g = gf; edge(f, bb, br->getSuccessor(1), std::move(s), L, next); }
            return;
        }
        if (auto* sw = dyn_cast<SwitchInst>(&I)) {
            BV v = val(f, sw->getCondition()); Lit rest = s.g;
            std::map<const BasicBlock*, Lit> tg; std::vector<const BasicBlock*> ord;
            for (auto& c : sw->cases()) { Lit e = bvEq(v, constant(c.getCaseValue())); Lit g = G.AND(rest, e); rest = G.AND(rest, neg(e)); if (g == F) continue; if (!tg.count(c.getCaseSuccessor())) { tg[c.getCaseSuccessor()] = F; ord.push_back(c.getCaseSuccessor()); } Lit& x = tg[c.getCaseSuccessor()]; x = G.OR(x, g); }
            if (rest != F) { const BasicBlock* d = sw->getDefaultDest(); if (!tg.count(d)) { tg[d] = F; ord.push_back(d); } tg[d] = G.OR(tg[d], rest); }
            for (auto* b : ord) { if (seqPrune && ord.size() > 1 && !feas.maybe(tg[b], 300)) continue; State t2 = s; t2.g = tg[b]; edge(f, bb, b, std::move(t2), L, next); }
            return;
        }
        if (auto* r = dyn_cast<ReturnInst>(&I)) { BV v; if (r->getReturnValue()) v = val(f, r->getReturnValue()); addRet(f, std::move(s), v); return; }
        if (auto* iv = dyn_cast<InvokeInst>(&I)) {
            Outcome ex; bool ok = doCall(f, *iv, s, &ex);
            if (ok) edge(f, bb, iv->getNormalDest(), std::move(s), L, next);
            if (ex.exc) edge(f, bb, iv->getUnwindDest(), std::move(ex.es), L, next);
            return;
        }
        if (isa<ResumeInst>(&I)) { s.exn.obj = bvSlice(val(f, I.getOperand(0)), 0, 64); addExc(f, std::move(s)); return; }
        if (isa<UnreachableInst>(&I)) { bad(s, T, "execution reaches code the compiler considers unreachable (undefined behaviour)", &I); return; }
        std::string m; raw_string_ostream o(m); I.print(o); throw Unsupported("terminator " + o.str());
    }
}
// ---- exceptions ------------------------------------------------------------------------------------
void Engine::bases(const GlobalValue* ti, std::set<const GlobalValue*>& out) {
    if (!out.insert(ti).second) return;
    auto* v = dyn_cast<GlobalVariable>(ti);
    if (!v) return;
    if (v->hasInitializer()) {
        if (auto* s = dyn_cast<ConstantStruct>(v->getInitializer()))
            for (unsigned i = 2; i < s->getNumOperands(); i++) if (auto* g = dyn_cast<GlobalValue>(s->getOperand(i)->stripPointerCasts())) bases(g, out);
    } else {
        static const std::map<std::string, std::vector<std::string>> ext = {
            {"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt11logic_error", {"_ZTISt9exception"}},
            {"_ZTISt12length_error", {"_ZTISt11logic_error"}}, {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc"}}, {"_ZTISt16invalid_argument", {"_ZTISt11logic_error"}}, {"_ZTISt12out_of_range", {"_ZTISt11logic_error"}}};
        auto it = ext.find(v->getName().str());
        if (it != ext.end()) for (auto& n : it->second) if (auto* g = M->getNamedValue(n)) bases(g, out);
    }
}
Lit Engine::typeMatches(State& s, BV const& thrown, const Constant* clause) {
    auto* cg = dyn_cast<GlobalValue>(clause->stripPointerCasts());
    Lit r = F;
    for (uint64_t t : throwTypes) {
        std::set<const GlobalValue*> b;
        for (auto& kv : gaddr) if (kv.second == t) { bases(kv.first, b); break; }
        bool hit = cg && b.count(cg);
        if (cg && !hit) { std::set<std::string> names; for (auto* x : b) names.insert(x->getName().str()); static const std::map<std::string, std::vector<std::string>> up = {{"_ZTISt13runtime_error", {"_ZTISt9exception"}}, {"_ZTISt9bad_alloc", {"_ZTISt9exception"}}, {"_ZTISt20bad_array_new_length", {"_ZTISt9bad_alloc", "_ZTISt9exception"}}, {"_ZTISt12length_error", {"_ZTISt11logic_error", "_ZTISt9exception"}}};
            for (auto& kv : up) if (names.count(kv.first)) for (auto& n : kv.second) if (n == cg->getName().str()) hit = true; }
        if (hit) r = G.OR(r, bvEq(thrown, bvc(64, t)));
    }
    return r;
}
std::string Engine::cstr(BV const& p) {
    std::string r; if (!bvConst(p)) return "?";
    uint64_t a = bvVal(p);
    for (int i = 0; i < 400; i++) { const Lit* b = peek(base, a + i); if (!b) break; unsigned c = 0; for (int k = 0; k < 8; k++) { if (!isC(b[k])) return r + "?"; c |= (unsigned)b[k] << k; } if (!c) break; r += (char)c; }
    return r;
}
// ---- calls -------------------------------------------------------------------------------------------
void Engine::memcpyOp(State& s, BV const& d, BV const& src, BV const& n, const Instruction* I) {
    if (bvConst(n)) {
        uint64_t len = bvVal(n); if (!len) return;
        if (len > 100000) { bad(s, T, "memory copy of an absurd length", I); return; }
        std::vector<BV> parts; std::vector<uint64_t> off;
        for (uint64_t o = 0; o < len;) { uint64_t k = len - o >= 8 ? 8 : len - o >= 4 ? 4 : len - o >= 2 ? 2 : 1; parts.push_back(load(s, bvAdd(src, bvc(64, o)), k, AtomicOrdering::NotAtomic, I)); off.push_back(o); o += k; if (s.g == F) return; }
        for (size_t i = 0; i < parts.size(); i++) { store(s, bvAdd(d, bvc(64, off[i])), parts[i], AtomicOrdering::NotAtomic, I); if (s.g == F) return; }
        return;
    }
    uint64_t mx = 0; for (size_t i = 0; i < n.size(); i++) if (n[i] != F) mx |= 1ull << i;
    if (mx > 4096) {   // find the largest feasible length
        uint64_t cap = 4096; Lit over = bvUlt(bvc(64, cap), bvZext(n, 64));
        if (!feas.maybe2(s.g, over)) mx = cap; else { bad(s, over, "memory copy of an absurd length", I); mx = cap; }
        if (s.g == F) return;
    }
    if (phase != 1) while (mx > 0 && !feas.maybe2(s.g, neg(bvUlt(n, bvc(n.size(), mx))))) mx = mx > 8 ? mx - 8 : mx - 1;   // keeps the bound valid: length >= mx is impossible
    // granule: the low zero bits of the length
    uint64_t gr = 1; while (gr < 8 && n[__builtin_ctzll(gr)] == F) gr *= 2;
    mx += 8;
    std::vector<std::pair<uint64_t, BV>> parts;
    for (uint64_t o = 0; o < mx; o += gr) {
        Lit in = bvUlt(bvc(n.size(), o), n); if (in == F) break;
        Lit g0 = s.g; if (G.AND(g0, in) == F) break;
        if (!feas.maybe2(g0, in)) break;
        State t = s; t.g = G.AND(g0, in);
        BV v = load(t, bvAdd(src, bvc(64, o)), gr, AtomicOrdering::NotAtomic, I);
        if (t.g != G.AND(g0, in)) s.g = G.OR(t.g, G.AND(g0, neg(in)));
        parts.emplace_back(o, v);
    }
    for (auto& pr : parts) {
        Lit in = bvUlt(bvc(n.size(), pr.first), n); Lit g0 = s.g;
        State t = s; t.g = G.AND(g0, in); if (t.g == F) continue;
        store(t, bvAdd(d, bvc(64, pr.first)), pr.second, AtomicOrdering::NotAtomic, I);
        s.g = G.AND(g0, neg(in));
        if (t.g == F) continue;
        if (s.g == F) { s = std::move(t); continue; }
        mergeInto(t, std::move(s)); s = std::move(t);
    }
}
void Engine::memsetOp(State& s, BV const& d, BV const& v, BV const& n, const Instruction* I) {
    BV v8; for (int i = 0; i < 8; i++) v8.insert(v8.end(), v.begin(), v.begin() + 8);
    if (bvConst(n)) {
        uint64_t len = bvVal(n); if (len > (1u << 24)) { bad(s, T, "memory fill of an absurd length", I); return; }
        if (len > 65536 && phase != 1) {   // large fills: check the bounds once
            std::vector<Cand> cs; Lit b; cands(s, d, len, true, cs, b); bad(s, b, "invalid write", I); if (s.g == F) return;
            for (auto& c : cs) for (uint64_t o = 0; o < len; o += 8) { uint64_t k = std::min<uint64_t>(8, len - o); BV w(v8.begin(), v8.begin() + 8 * k); rawStore(s, c.a + o, c.c == T ? w : bvMux(c.c, w, rawLoad(s, c.a + o, k))); }
            return;
        }
        for (uint64_t o = 0; o < len;) { uint64_t k = len - o >= 8 ? 8 : len - o >= 4 ? 4 : len - o >= 2 ? 2 : 1; store(s, bvAdd(d, bvc(64, o)), BV(v8.begin(), v8.begin() + 8 * k), AtomicOrdering::NotAtomic, I); o += k; if (s.g == F) return; }
        return;
    }
    uint64_t mx = 0; for (size_t i = 0; i < n.size(); i++) if (n[i] != F) mx |= 1ull << i;
    for (uint64_t o = 0; o < mx && o < 4096; o++) {
        Lit in = bvUlt(bvc(n.size(), o), n); Lit g0 = s.g; if (G.AND(g0, in) == F) break;
        if (!feas.maybe2(g0, in)) break;
        State t = s; t.g = G.AND(g0, in);
        store(t, bvAdd(d, bvc(64, o)), BV(v.begin(), v.begin() + 8), AtomicOrdering::NotAtomic, I);
        s.g = G.AND(g0, neg(in)); if (t.g == F) continue; if (s.g == F) { s = std::move(t); continue; }
        mergeInto(t, std::move(s)); s = std::move(t);
    }
}
void Engine::freeObj(State& s, BV const& p, int kind, const Instruction* I) {
    Lit isNull = bvEq(p, bvc(64, 0)); Lit any = isNull, mism = F, dbl = F;
    std::vector<std::pair<int, Lit>> hit;
    if (bvConst(p)) {
        if (isNull == T) return;
        auto it = byBase.find(bvVal(p));
        if (it != byBase.end() && objs[it->second].kind == O_HEAP) hit.emplace_back(it->second, T);
    } else {
        uint64_t mask = 0, val = 0; for (int i = 0; i < 64; i++) if (isC(p[i])) { mask |= 1ull << i; if (p[i] == T) val |= 1ull << i; }
        for (auto& kv : byBase) if (objs[kv.second].kind == O_HEAP && (kv.first & mask) == val) { Lit e = bvEq(p, bvc(64, kv.first)); if (G.AND(s.g, e) != F) hit.emplace_back(kv.second, e); }
    }
    for (auto& h : hit) {
        any = G.OR(any, h.second);
        if (objs[h.first].alloc != kind) mism = G.OR(mism, h.second);
        dbl = G.OR(dbl, G.AND(h.second, neg(liveLit(s, h.first))));
    }
    bad(s, neg(any), "free of a pointer that was not allocated", I); if (s.g == F) return;
    bad(s, dbl, "double free", I); if (s.g == F) return;
    bad(s, mism, "deallocation function does not match the allocation", I); if (s.g == F) return;
    for (auto& h : hit) {
        if ((int)s.dead.size() <= h.first) s.dead.resize(h.first + 1, F);
        if ((int)s.live.size() <= h.first) s.live.resize(h.first + 1, F);
        s.dead[h.first] = G.OR(s.dead[h.first], h.second); s.live[h.first] = G.AND(s.live[h.first], neg(h.second));
        if (phase == 1) { noteAcc(objs[h.first].base, objs[h.first].size, true); Event& e = newEvent(s, E_FREE, I); e.guard = G.AND(e.guard, h.second); e.cands = {{objs[h.first].base, T}}; e.size = objs[h.first].size; e.what = "free"; }
    }
}
bool Engine::doCall(Frame& f, const CallBase& C, State& s, Outcome* exc) {
    if (C.isInlineAsm()) { if (C.getType()->isVoidTy()) return true; throw Unsupported("inline assembly"); }
    std::vector<std::pair<const Function*, Lit>> targets;
    const Value* cv = C.getCalledOperand()->stripPointerCasts();
    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
    if (auto* fn = dyn_cast<Function>(cv)) targets.emplace_back(fn, T);
    else {
        BV p = val(f, C.getCalledOperand()); Lit any = F;
        for (auto& kv : fnAt) { Lit e = bvEq(p, bvc(64, kv.first)); if (e == F || G.AND(s.g, e) == F) continue; if (e != T && !feas.maybe2(s.g, e)) continue; targets.emplace_back(kv.second, e); any = G.OR(any, e); }
        bad(s, neg(any), "call through an invalid function pointer", &C);
        if (s.g == F) return false;
        if (targets.size() == 1) targets[0].second = T;
    }
    std::vector<BV> args; for (auto& a : C.args()) args.push_back(a->getType()->isMetadataTy() ? BV() : val(f, a));
    // by-value aggregates: give the callee its own copy
    bool first = true; State acc; BV accv; State in = std::move(s); bool ret = false;
    for (auto& t : targets) {
        State st = targets.size() == 1 ? std::move(in) : in;
        st.g = G.AND(st.g, t.second);
        BV rv; bool thrown = false; bool ok;
        StringRef nm = t.first->getName();
        std::vector<BV> a2 = args;
        bool handled = builtin(f, C, nm, a2, st, rv, thrown);
        if (handled) {
            ok = !thrown && st.g != F;
            if (thrown && st.g != F) { if (!exc->exc) { exc->exc = true; exc->es = std::move(st); } else mergeInto(exc->es, std::move(st)); }
        } else {
            if (t.first->isDeclaration()) throw Unsupported("call to external function " + nm.str() + " at " + where(&C));
            a2.resize(t.first->arg_size());
            Outcome o = call(t.first, a2, std::move(st), &C);
            if (o.exc) { if (!exc->exc) { exc->exc = true; exc->es = std::move(o.es); } else mergeInto(exc->es, std::move(o.es)); }
            ok = o.ret; if (ok) { st = std::move(o.rs); rv = std::move(o.rv); }
        }
        if (!ok) continue;
        if (!ret) { ret = true; acc = std::move(st); accv = std::move(rv); }
        else { Lit sel = mergeInto(acc, std::move(st)); if (!rv.empty()) accv = bvMux(sel, accv, rv); }
    }
    (void)first;
    if (!ret) return false;
    s = std::move(acc);
    if (!C.getType()->isVoidTy()) { int w = width(C.getType()); if ((int)accv.size() != w) { if (accv.empty()) accv = bvFresh(w); else throw Unsupported("return width of " + std::string(C.getCalledFunction() ? C.getCalledFunction()->getName().str() : "?")); } f.env[&C] = accv; }
    return true;
}
bool Engine::builtin(Frame& f, const CallBase& C, StringRef n, std::vector<BV>& a, State& s, BV& rv, bool& thrown) {
    auto is = [&](const char* x) { return n == x; };
    auto pre = [&](const char* x) { return n.starts_with(x); };
    auto cst = [&](int i) -> uint64_t { if (!bvConst(a[i])) throw Unsupported("symbolic argument of " + n.str() + " at " + where(&C)); return bvVal(a[i]); };
    if (pre("llvm.")) {
        if (pre("llvm.lifetime") || pre("llvm.dbg") || pre("llvm.assume") || pre("llvm.experimental.noalias") || pre("llvm.invariant") || pre("llvm.donothing") || pre("llvm.prefetch") || pre("llvm.stacksave") || pre("llvm.stackrestore") || pre("llvm.sideeffect")) { if (!C.getType()->isVoidTy()) rv = bvc(width(C.getType()), 0); return true; }
        if (pre("llvm.memcpy")) { memcpyOp(s, a[0], a[1], a[2], &C); return true; }
        if (pre("llvm.memmove")) { memcpyOp(s, a[0], a[1], a[2], &C); return true; }
        if (pre("llvm.memset")) { memsetOp(s, a[0], a[1], a[2], &C); return true; }
        if (pre("llvm.expect") || pre("llvm.launder") || pre("llvm.strip") || pre("llvm.ptr.annotation") || pre("llvm.ssa.copy") || pre("llvm.threadlocal.address")) { rv = a[0]; return true; }
        if (pre("llvm.umin")) { rv = bvMux(bvUlt(a[0], a[1]), a[0], a[1]); return true; }
        if (pre("llvm.umax")) { rv = bvMux(bvUlt(a[0], a[1]), a[1], a[0]); return true; }
        if (pre("llvm.smin")) { rv = bvMux(bvSlt(a[0], a[1]), a[0], a[1]); return true; }
        if (pre("llvm.smax")) { rv = bvMux(bvSlt(a[0], a[1]), a[1], a[0]); return true; }
        if (pre("llvm.abs")) { rv = bvMux(a[0].back(), bvNeg(a[0]), a[0]); return true; }
        if (pre("llvm.uadd.with.overflow")) { Lit c; rv = bvAddC(a[0], a[1], F, &c); rv.push_back(c); return true; }
        if (pre("llvm.usub.with.overflow")) { rv = bvSub(a[0], a[1]); rv.push_back(bvUlt(a[0], a[1])); return true; }
        if (pre("llvm.sadd.with.overflow")) { rv = bvAdd(a[0], a[1]); Lit o = G.AND(neg(G.XOR(a[0].back(), a[1].back())), G.XOR(a[0].back(), rv.back())); rv.push_back(o); return true; }
        if (pre("llvm.ssub.with.overflow")) { rv = bvSub(a[0], a[1]); Lit o = G.AND(G.XOR(a[0].back(), a[1].back()), G.XOR(a[0].back(), rv.back())); rv.push_back(o); return true; }
        if (pre("llvm.umul.with.overflow")) { int w = a[0].size(); BV p = bvMul(bvZext(a[0], 2 * w), bvZext(a[1], 2 * w)); Lit o = F; for (int i = w; i < 2 * w; i++) o = G.OR(o, p[i]); rv = bvTrunc(p, w); rv.push_back(o); return true; }
        if (pre("llvm.usub.sat")) { rv = bvMux(bvUlt(a[0], a[1]), bvc(a[0].size(), 0), bvSub(a[0], a[1])); return true; }
        if (pre("llvm.uadd.sat")) { Lit c; rv = bvAddC(a[0], a[1], F, &c); rv = bvMux(c, bvNot(bvc(a[0].size(), 0)), rv); return true; }
        if (pre("llvm.fshl") || pre("llvm.fshr")) {
            int w = a[0].size(); BV k = a[2]; if (w & (w - 1)) throw Unsupported("fsh"); for (int i = 0; i < (int)k.size(); i++) if ((1 << std::min(i, 20)) >= w) k[i] = F;
            BV c = a[1]; c.insert(c.end(), a[0].begin(), a[0].end()); k = bvZext(k, 2 * w);
            rv = pre("llvm.fshl") ? bvSlice(bvShift(c, k, 0), w, w) : bvSlice(bvShift(c, k, 1), 0, w); return true; }
        if (pre("llvm.bswap")) { rv = a[0]; int b = rv.size() / 8; for (int i = 0; i < b; i++) for (int k = 0; k < 8; k++) rv[i * 8 + k] = a[0][(b - 1 - i) * 8 + k]; return true; }
        if (pre("llvm.ctpop")) { rv = bvc(a[0].size(), 0); for (Lit l : a[0]) rv = bvAddC(rv, bvc(a[0].size(), 0), l); return true; }
        if (pre("llvm.cttz") || pre("llvm.ctlz")) { int w = a[0].size(); rv = bvc(w, w); for (int i = w - 1; i >= 0; i--) { int p = pre("llvm.cttz") ? i : w - 1 - i; rv = bvMux(a[0][p], bvc(w, i), rv); } return true; }
        if (pre("llvm.eh.typeid.for")) { rv = bvTrunc(a[0], 32); return true; }
        if (pre("llvm.objectsize")) { rv = bvc(width(C.getType()), (uint64_t)-1); return true; }
        if (pre("llvm.is.constant")) { rv = bvc(1, 0); return true; }
        if (pre("llvm.trap") || pre("llvm.ubsantrap")) { bad(s, T, "trap", &C); return true; }
        if (pre("llvm.x86.sse2.pause")) return true;
        throw Unsupported("intrinsic " + n.str());
    }
    // --- harness interface
    if (pre("__lf_")) {
        if (is("__lf_nondet")) { uint64_t b = cst(0); BV v = bvFresh(b); nondets.push_back({cur, nondetSeq++, cstr(a[1]), v, s.g}); rv = bvZext(v, 64); return true; }
        if (is("__lf_assume")) { Lit c = a[0][0]; if (phase == 1) assumes.push_back(neg(G.AND(s.g, neg(c)))); s.g = G.AND(s.g, c); if (phase != 1 && s.g != F && seqPrune && !feas.maybe(s.g)) s.g = F; return true; }
        if (is("__lf_assert")) { bad(s, neg(a[0][0]), "assertion: " + cstr(a[1]), &C); return true; }
        if (is("__lf_cover")) { std::string m = cstr(a[1]); Lit l = G.AND(s.g, a[0][0]); for (auto& c : covers) if (c.msg == m) { c.cond = G.OR(c.cond, l); return true; } covers.push_back({l, m}); return true; }
        if (is("__lf_mark")) { if (phase == 1) { Event& e = newEvent(s, E_MARK, &C); e.mark = cst(0); e.what = "mark " + std::to_string(e.mark); } return true; }
        if (is("__lf_before")) { rv = BV(1, beforeFn ? beforeFn(cst(0), cst(1)) : F); return true; }
        if (is("__lf_done")) { unsigned t = cst(0); rv = BV(1, t < doneLit.size() ? doneLit[t] : F); return true; }
        if (is("__lf_symbolic")) { rv = BV(1, T); return true; }
        if (is("__lf_heap_live")) { BV c = bvc(16, 0); for (size_t o = 0; o < s.live.size(); o++) if (s.live[o] != F && objs[o].alloc != 9) c = bvAddC(c, bvc(16, 0), s.live[o]); rv = bvZext(c, 64); return true; }
        if (is("__lf_thread")) { rv = bvc(32, cur < 0 ? 99 : cur); return true; }
        if (is("__lf_poison")) { uint64_t len = cst(1); for (uint64_t i = 0; i < len; i++) store(s, bvAdd(a[0], bvc(64, i)), bvFresh(8), AtomicOrdering::NotAtomic, &C); return true; }
        throw Unsupported("unknown harness function " + n.str());
    }
    // --- allocation
    if (is("_Znwm") || is("_Znam") || is("malloc") || is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t")) { int k = pre("_Znw") ? 2 : pre("_Zna") ? 3 : 1; rv = bvc(64, heapAlloc(s, cst(0), 16, k)); return true; }
    if (pre("_ZnwmSt11align_val_t") || pre("_ZnamSt11align_val_t")) { rv = bvc(64, heapAlloc(s, cst(0), cst(1), pre("_Znw") ? 2 : 3)); return true; }
    if (is("aligned_alloc") || is("memalign")) { rv = bvc(64, heapAlloc(s, cst(1), cst(0), 1)); return true; }
    if (is("posix_memalign")) { uint64_t p = heapAlloc(s, cst(2), cst(1), 1); store(s, a[0], bvc(64, p), AtomicOrdering::NotAtomic, &C); rv = bvc(32, 0); return true; }
    if (is("calloc")) { uint64_t sz = cst(0) * cst(1); uint64_t p = heapAlloc(s, sz, 16, 1); memsetOp(s, bvc(64, p), bvc(8, 0), bvc(64, sz), &C); rv = bvc(64, p); return true; }
    if (is("free")) { freeObj(s, a[0], 1, &C); return true; }
    if (pre("_ZdlPv")) { freeObj(s, a[0], 2, &C); return true; }
    if (pre("_ZdaPv")) { freeObj(s, a[0], 3, &C); return true; }
    if (is("memcpy") || is("memmove")) { memcpyOp(s, a[0], a[1], a[2], &C); rv = a[0]; return true; }
    if (is("memcmp") || is("bcmp")) {
        uint64_t len = cst(2); if (len > 4096) throw Unsupported("memcmp of that length");
        BV r = bvc(32, 0); std::vector<std::pair<BV, BV>> by;
        for (uint64_t i = 0; i < len; i++) { BV x = load(s, bvAdd(a[0], bvc(64, i)), 1, AtomicOrdering::NotAtomic, &C), y = load(s, bvAdd(a[1], bvc(64, i)), 1, AtomicOrdering::NotAtomic, &C); by.emplace_back(x, y); if (s.g == F) { rv = r; return true; } }
        for (size_t i = by.size(); i-- > 0;) r = bvMux(bvEq(by[i].first, by[i].second), r, bvMux(bvUlt(by[i].first, by[i].second), bvc(32, (uint64_t)-1), bvc(32, 1)));
        rv = r; return true; }
    if (is("memset")) { memsetOp(s, a[0], bvTrunc(a[1], 8), a[2], &C); rv = a[0]; return true; }
    // --- runtime
    if (is("__assert_fail")) { bad(s, T, "library assertion failed: " + cstr(a[0]), &C); return true; }
    if (is("abort") || is("_ZSt9terminatev") || is("exit") || is("_ZSt10unexpectedv")) { bad(s, T, "the program terminates (" + n.str() + ")", &C); return true; }
    if (is("__clang_call_terminate")) { bad(s, T, "std::terminate: an exception leaves a noexcept function", &C); return true; }
    if (is("__cxa_pure_virtual")) { bad(s, T, "pure virtual call", &C); return true; }
    if (is("__cxa_atexit")) { rv = bvc(32, 0); return true; }
    if (is("__cxa_guard_acquire")) { BV v = load(s, a[0], 1, AtomicOrdering::NotAtomic, &C); rv = bvZext(BV(1, neg(v[0])), 32); return true; }
    if (is("__cxa_guard_release")) { store(s, a[0], bvc(8, 1), AtomicOrdering::NotAtomic, &C); return true; }
    if (is("__cxa_guard_abort")) return true;
    if (is("__cxa_allocate_exception")) { rv = bvc(64, heapAlloc(s, cst(0), 16, 9)); return true; }
    if (is("__cxa_free_exception")) { return true; }
    if (is("__cxa_throw")) { s.exn.obj = a[0]; s.exn.type = a[1]; throwTypes.insert(cst(1)); thrown = true; return true; }
    if (is("__cxa_begin_catch")) { Exn e = s.exn; e.obj = a[0]; s.caught.push_back(e); rv = a[0]; return true; }
    if (is("__cxa_get_exception_ptr")) { rv = a[0]; return true; }
    if (is("__cxa_end_catch")) { if (!s.caught.empty()) s.caught.pop_back(); return true; }
    if (is("__cxa_rethrow")) { if (s.caught.empty()) { bad(s, T, "rethrow without a caught exception", &C); return true; } s.exn = s.caught.back(); thrown = true; return true; }
    if (is("_Unwind_Resume")) { s.exn.obj = a[0]; thrown = true; return true; }
    if (pre("_ZSt17__throw_bad_alloc") || pre("_ZSt28__throw_bad_array_new_length") || pre("_ZSt20__throw_length_error") || pre("_ZSt20__throw_out_of_range")) {
        const char* tn = pre("_ZSt17") ? "_ZTISt9bad_alloc" : pre("_ZSt28") ? "_ZTISt20bad_array_new_length" : "_ZTISt12length_error";
        GlobalVariable* g = M->getNamedGlobal(tn);
        if (!g) g = new GlobalVariable(*M, Type::getInt64Ty(M->getContext()), true, GlobalValue::ExternalLinkage, nullptr, tn);
        uint64_t t = addrOf(g); throwTypes.insert(t); s.exn.obj = bvc(64, heapAlloc(s, 16, 16, 9)); s.exn.type = bvc(64, t); thrown = true; return true; }
    if (pre("_ZNSt13runtime_errorC") || pre("_ZNSt13runtime_errorD") || pre("_ZNSt9exceptionD") || pre("_ZNSt9exceptionC") || pre("_ZNSt9bad_allocD") || pre("_ZNSt9bad_allocC") || pre("_ZNSt12length_errorC") || pre("_ZNSt12length_errorD") || pre("_ZNSt11logic_errorC")) return true;
    if (is("__atomic_is_lock_free")) { uint64_t sz = cst(0); rv = bvc(width(C.getType()), sz == 1 || sz == 2 || sz == 4 || sz == 8 || sz == 16); return true; }
    if (is("pthread_self")) { rv = bvc(64, 0x1234 + cur); return true; }
    if (is("sched_yield")) { rv = bvc(32, 0); return true; }
    return false;
}
