// lfbmc: bounded, solver-based checking of LLVM IR.
//   lfbmc --list FILE.bc
//   lfbmc FILE.bc SCENARIO [--tmp DIR] [--timeout S] [--trace FILE]     -> JSON on stdout
#include "exec.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <algorithm>
#include <cstdarg>
#include <sstream>
using namespace llvm;

static std::string jstr(std::string const& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static bool verbose = getenv("LF_VERBOSE") != nullptr;

struct Conc {
    Engine& E; Query q;
    State s0; std::vector<Engine::Outcome> out; State fin; int nt = 0;
    // order
    std::vector<std::vector<std::vector<std::vector<Lit>>>> ord;   // [A][B][i][j]
    Lit before(int a, int b) {
        Event &x = E.ev[a], &y = E.ev[b];
        if (x.thread == y.thread) return x.idx < y.idx ? T : F;
        if (x.thread < y.thread) return ord[x.thread][y.thread][x.idx][y.idx];
        return neg(ord[y.thread][x.thread][y.idx][x.idx]);
    }
    struct Part { int ev, cand; Lit act; BV v; };                   // access of one cell
    struct Cell { uint64_t a; int n; std::vector<Part> rd, wr; BV fin; };
    std::vector<Cell> cells;
    struct RF { int r, w; Lit f; uint64_t a; };
    std::vector<RF> rfs;                                            // reads-from choices (w >= 0)
    explicit Conc(Engine& e) : E(e) {}
    void buildCells() {
        cells.clear();
        std::set<uint64_t> bytes(E.shared.begin(), E.shared.end()), cut;
        for (auto& e : E.ev) { if (e.kind == E_FREE) continue; for (auto& c : e.cands) { cut.insert(c.a); cut.insert(c.a + e.size); } }
        for (auto it = bytes.begin(); it != bytes.end();) {
            uint64_t a = *it; int n = 0;
            while (it != bytes.end() && *it == a + n && (n == 0 || !cut.count(*it))) { ++n; ++it; }
            cells.push_back({a, n, {}, {}, {}});
        }
        std::map<uint64_t, int> at; for (size_t i = 0; i < cells.size(); i++) at[cells[i].a] = i;
        for (auto& e : E.ev) {
            if (e.kind != E_READ && e.kind != E_WRITE && e.kind != E_RMW) continue;
            for (size_t k = 0; k < e.cands.size(); k++) {
                Lit act = G.AND(e.guard, e.cands[k].c); if (act == F) continue;
                for (auto it = at.lower_bound(e.cands[k].a); it != at.end() && it->first < e.cands[k].a + e.size; ++it) {
                    Cell& c = cells[it->second]; int off = (c.a - e.cands[k].a) * 8;
                    if (e.kind != E_WRITE) c.rd.push_back({e.id, (int)k, act, bvSlice(e.rv, off, c.n * 8)});
                    if (e.kind != E_READ) { Lit w = G.AND(act, e.wcond); if (w != F) c.wr.push_back({e.id, (int)k, w, bvSlice(e.wv, off, c.n * 8)}); }
                }
            }
        }
        for (auto& c : cells) {
            c.fin = E.knownBV({{c.a, T}}, c.n);
        }
    }
    void eqIf(Lit f, BV const& a, BV const& b) { for (size_t i = 0; i < a.size(); i++) { if (a[i] == b[i]) continue; q.add({neg(f), neg(a[i]), b[i]}); q.add({neg(f), a[i], neg(b[i])}); } }
    void buildFinal() {
        fin = s0;
        Lit g = s0.g;
        for (int t = 0; t < nt; t++) if (!E.stall.count(t)) g = G.AND(g, out[t].ret ? out[t].rs.g : F);
        fin.g = g;
        for (int t = 0; t < nt; t++) {
            if (!out[t].ret) continue;
            State& o = out[t].rs;
            for (size_t c = 0; c < o.mem.size(); c++) {
                if (!o.mem[c] || (c < s0.mem.size() && o.mem[c] == s0.mem[c])) continue;
                uint64_t cb = E.chunkBase(c); if (cb >= Engine::STACK + 0x1000000 && !(cb & Engine::HI)) continue;
                for (int k = 0; k < 64; k++) {
                    PageP p = o.mem[c]->p[k]; if (!p) continue;
                    PageP p0 = c < s0.mem.size() && s0.mem[c] ? s0.mem[c]->p[k] : PageP();
                    if (p == p0) continue;
                    for (int i = 0; i < 64; i++) {
                        uint64_t a = cb + k * 64 + i; Lit* x = p->b + i * 8; if (*x == UNSET) continue;
                        if (E.shared.count(a)) continue;
                        bool same = p0 && !memcmp(p0->b + i * 8, x, 8 * sizeof(Lit)); if (same) continue;
                        Lit* y = E.poke(fin, a); memcpy(y, x, 8 * sizeof(Lit));
                    }
                }
            }
        }
        for (auto& c : cells) E.rawStore(fin, c.a, c.fin);
        // heap liveness
        size_t m = E.objs.size(); fin.live.resize(m, F); fin.dead.resize(m, F);
        for (size_t o = 0; o < m; o++) {
            Lit d = o < s0.dead.size() ? s0.dead[o] : F, l = o < s0.live.size() ? s0.live[o] : F;
            for (int t = 0; t < nt; t++) if (out[t].ret) {
                State& x = out[t].rs; Lit td = o < x.dead.size() ? x.dead[o] : F, tl = o < x.live.size() ? x.live[o] : F;
                d = G.OR(d, td); l = G.OR(l, tl);
            }
            fin.dead[o] = d; fin.live[o] = G.AND(l, neg(d));
        }
    }
    // all axioms
    void encode() {
        auto& ev = E.ev;
        // order
        ord.assign(nt, std::vector<std::vector<std::vector<Lit>>>(nt));
        for (int a = 0; a < nt; a++) for (int b = a + 1; b < nt; b++) {
            auto& o = ord[a][b]; size_t na = E.tev[a].size(), nb = E.tev[b].size();
            o.assign(na, std::vector<Lit>(nb));
            for (auto& r : o) for (auto& l : r) l = G.input();
            for (size_t i = 0; i < na; i++) for (size_t j = 0; j < nb; j++) {
                if (i) q.add({neg(o[i][j]), o[i - 1][j]});
                if (j + 1 < nb) q.add({neg(o[i][j]), o[i][j + 1]});
            }
        }
        for (int a = 0; a < nt; a++) for (int b = a + 1; b < nt; b++) for (int c = b + 1; c < nt; c++)
            for (int x : E.tev[a]) for (int y : E.tev[b]) for (int z : E.tev[c]) {
                Lit xy = before(x, y), yz = before(y, z), xz = before(x, z);
                q.add({neg(xy), neg(yz), xz}); q.add({xy, yz, neg(xz)});
            }
        // views (weak memory)
        std::vector<int> writes; std::vector<int> widx(ev.size(), -1);
        if (E.ra) for (auto& e : ev) if (e.kind == E_WRITE || e.kind == E_RMW) { widx[e.id] = writes.size(); writes.push_back(e.id); }
        size_t W = writes.size();
        std::vector<std::vector<Lit>> V(ev.size() + 0), RV(W), VE;
        auto freshRow = [&](int t, int idx) { std::vector<Lit> r(W); for (size_t w = 0; w < W; w++) { Event& x = ev[writes[w]]; r[w] = x.thread == t ? (x.idx < idx ? T : F) : G.input(); } return r; };
        if (E.ra) {
            for (auto& e : ev) V[e.id] = freshRow(e.thread, e.idx);
            for (size_t w = 0; w < W; w++) { RV[w].resize(W); for (auto& l : RV[w]) l = G.input(); }
        }
        // reads-from
        rfs.clear();
        for (auto& c : cells) {
            BV init = E.rawLoad(s0, c.a, c.n);
            for (auto& r : c.rd) {
                Event& re = ev[r.ev];
                std::vector<Lit> some{neg(r.act)};
                Lit fi = G.input(); some.push_back(fi);
                q.add({neg(fi), r.act});
                eqIf(fi, r.v, init);
                Lit latest = !E.ra ? T : (re.kind == E_RMW ? re.wcond : F);
                for (auto& w : c.wr) {
                    if (w.ev == r.ev) continue;
                    Lit b = before(w.ev, r.ev); if (b == F) continue;
                    // reading the initial value: no enabled write before (or, weak memory, none in view)
                    if (!E.ra) q.add({neg(fi), neg(w.act), neg(b)});
                    else { q.add({neg(fi), neg(w.act), neg(V[r.ev][widx[w.ev]])}); if (latest != F) q.add({neg(fi), neg(w.act), neg(b), neg(latest)}); }
                }
                for (auto& w : c.wr) {
                    if (w.ev == r.ev) continue;
                    Lit b = before(w.ev, r.ev); if (b == F || G.AND(w.act, r.act) == F) continue;
                    Lit f = G.input(); some.push_back(f); rfs.push_back({r.ev, w.ev, f, c.a});
                    q.add({neg(f), w.act}); q.add({neg(f), b}); q.add({neg(f), r.act});
                    eqIf(f, r.v, w.v);
                    for (auto& w2 : c.wr) {
                        if (w2.ev == w.ev || w2.ev == r.ev) continue;
                        Lit b2 = before(w2.ev, r.ev); if (b2 == F) continue;
                        Lit b12 = before(w.ev, w2.ev); if (b12 == F) continue;
                        if (!E.ra) q.add({neg(f), neg(w2.act), neg(b12), neg(b2)});
                        else { q.add({neg(f), neg(w2.act), neg(b12), neg(V[r.ev][widx[w2.ev]])}); if (latest != F) q.add({neg(f), neg(w2.act), neg(b12), neg(b2), neg(latest)}); }
                    }
                }
                q.add(some);
            }
            // final value
            std::vector<Lit> some; Lit fi = G.input(); some.push_back(fi); eqIf(fi, c.fin, init);
            for (auto& w : c.wr) q.add({neg(fi), neg(w.act)});
            for (auto& w : c.wr) {
                Lit f = G.input(); some.push_back(f); q.add({neg(f), w.act}); eqIf(f, c.fin, w.v);
                for (auto& w2 : c.wr) if (w2.ev != w.ev) q.add({neg(f), neg(w2.act), neg(before(w.ev, w2.ev))});
            }
            q.add(some);
        }
        if (E.ra) {
            // an atomic read that covers several cells does not tear: either it takes all parts from one atomic write or none
            std::map<std::tuple<int, int, int>, std::vector<Lit>> pairs;
            for (auto& x : rfs) if (ev[x.r].atomic && ev[x.w].atomic && ev[x.r].size == ev[x.w].size) pairs[{x.r, x.w, 0}].push_back(x.f);
            for (auto& kv : pairs) {
                // with several candidate addresses the parts of different candidates are told apart by the address condition
                auto& r = ev[std::get<0>(kv.first)]; auto& w = ev[std::get<1>(kv.first)];
                if (r.cands.size() == 1 && w.cands.size() == 1) { for (size_t i = 0; i + 1 < kv.second.size(); i++) { q.add({neg(kv.second[i]), kv.second[i + 1]}); q.add({kv.second[i], neg(kv.second[i + 1])}); } continue; }
                std::map<uint64_t, std::vector<Lit>> byCand;
                for (auto& x : rfs) if (x.r == r.id && x.w == w.id) for (auto& c : r.cands) if (x.a >= c.a && x.a < c.a + r.size) byCand[c.a].push_back(x.f);
                for (auto& bc : byCand) for (size_t i = 0; i + 1 < bc.second.size(); i++) { q.add({neg(bc.second[i]), bc.second[i + 1]}); q.add({bc.second[i], neg(bc.second[i + 1])}); }
            }
            // view propagation
            for (int t = 0; t < nt; t++) {
                for (size_t i = 0; i < E.tev[t].size(); i++) {
                    int p = E.tev[t][i]; Event& e = ev[p];
                    std::vector<Lit> nxt; if (i + 1 < E.tev[t].size()) nxt = V[E.tev[t][i + 1]];
                    if (!nxt.empty()) for (size_t w = 0; w < W; w++) q.add({neg(V[p][w]), nxt[w]});
                    if (!nxt.empty() && e.kind == E_FENCE && e.acq == T)
                        for (auto& x : rfs) if (ev[x.r].thread == t && ev[x.r].idx < e.idx) for (size_t w = 0; w < W; w++) q.add({neg(e.guard), neg(x.f), neg(RV[widx[x.w]][w]), nxt[w]});
                    if (e.kind == E_WRITE || e.kind == E_RMW) {
                        int me = widx[p];
                        for (size_t w = 0; w < W; w++) q.add({neg(e.rel), neg(V[p][w]), RV[me][w]});
                        if (e.rel != F) q.add({neg(e.rel), RV[me][me]});
                        // release fences before a relaxed write
                        for (size_t k = 0; k < i; k++) { Event& fe = ev[E.tev[t][k]]; if (fe.kind == E_FENCE && fe.rel == T) for (size_t w = 0; w < W; w++) q.add({neg(fe.guard), neg(V[fe.id][w]), RV[me][w]}); }
                    }
                }
            }
            for (auto& x : rfs) {
                Event& e = ev[x.r]; std::vector<Lit> nxt; if (e.idx + 1 < (int)E.tev[e.thread].size()) nxt = V[E.tev[e.thread][e.idx + 1]];
                int s = widx[x.w];
                if (!nxt.empty()) { q.add({neg(x.f), nxt[s]}); for (size_t w = 0; w < W; w++) q.add({neg(x.f), neg(e.acq), neg(RV[s][w]), nxt[w]}); }
                if (e.kind == E_RMW) { int me = widx[x.r]; for (size_t w = 0; w < W; w++) q.add({neg(x.f), neg(e.wcond), neg(RV[s][w]), RV[me][w]});
                    // an acquiring and releasing update passes on what it has just acquired
                    for (size_t w = 0; w < W; w++) q.add({neg(x.f), neg(e.wcond), neg(e.acq), neg(e.rel), neg(RV[s][w]), RV[me][w]}); }
            }
        }
        // frees
        std::vector<int> frees; for (auto& e : ev) if (e.kind == E_FREE) frees.push_back(e.id);
        for (int fe : frees) {
            Event& fr = ev[fe]; uint64_t lo = fr.cands[0].a, hi = lo + std::max(fr.size, 1);
            for (auto& e : ev) {
                if (e.thread == fr.thread || e.kind == E_MARK || e.kind == E_FENCE) continue;
                Lit hit = F; for (auto& c : e.cands) if (c.a < hi && c.a + std::max(e.size, 1) > lo) hit = G.OR(hit, c.c);
                if (hit == F) continue;
                Lit b = G.AND(G.AND(fr.guard, G.AND(e.guard, hit)), e.kind == E_FREE ? T : before(fe, e.id));
                if (b != F) E.bads.push_back({b, e.kind == E_FREE ? "double free by two threads" : "access to memory another thread has freed", e.loc, e.thread});
            }
        }
        // data races on plain accesses
        if (E.race) races();
        // spurious failures
        if (!E.spuriousLits.empty()) { BV c = bvc(8, 0); for (Lit l : E.spuriousLits) c = bvAddC(c, bvc(8, 0), l); q.require(bvUle(c, bvc(8, E.spurious))); }
        for (Lit a : E.assumes) q.require(a);
        for (Lit a : E.invariants) q.require(a);
    }
    void races() {
        auto& ev = E.ev;
        std::vector<int> fl; std::vector<int> fi(ev.size(), -1);
        for (auto& e : ev) if (e.flagged) { fi[e.id] = fl.size(); fl.push_back(e.id); }
        size_t N = fl.size(); if (!N) return;
        std::vector<std::vector<Lit>> H(ev.size()), RH(ev.size());
        for (auto& e : ev) { H[e.id].resize(N); for (size_t k = 0; k < N; k++) { Event& x = ev[fl[k]]; H[e.id][k] = x.thread == e.thread ? (x.idx < e.idx ? T : F) : G.input(); } if (e.kind == E_WRITE || e.kind == E_RMW) { RH[e.id].resize(N); for (auto& l : RH[e.id]) l = G.input(); } }
        for (int t = 0; t < nt; t++) for (size_t i = 0; i < E.tev[t].size(); i++) {
            int p = E.tev[t][i]; Event& e = ev[p];
            if (i + 1 < E.tev[t].size()) for (size_t k = 0; k < N; k++) q.add({neg(H[p][k]), H[E.tev[t][i + 1]][k]});
            if (e.kind == E_WRITE || e.kind == E_RMW) for (size_t k = 0; k < N; k++) q.add({neg(e.rel), neg(H[p][k]), RH[p][k]});
        }
        for (auto& x : rfs) {
            Event& e = ev[x.r]; if (!e.atomic || !ev[x.w].atomic) continue;
            if (e.idx + 1 < (int)E.tev[e.thread].size()) { int nx = E.tev[e.thread][e.idx + 1]; for (size_t k = 0; k < N; k++) q.add({neg(x.f), neg(e.acq), neg(RH[x.w][k]), H[nx][k]}); }
            if (e.kind == E_RMW) for (size_t k = 0; k < N; k++) q.add({neg(x.f), neg(e.wcond), neg(RH[x.w][k]), RH[e.id][k]});
        }
        for (size_t i = 0; i < N; i++) for (auto& e2 : ev) {
            Event& e1 = ev[fl[i]]; if (e1.thread == e2.thread) continue;
            if (e2.kind != E_READ && e2.kind != E_WRITE && e2.kind != E_RMW) continue;
            if (e1.kind == E_READ && e2.kind == E_READ) continue;
            if (e2.flagged && e2.id < e1.id) { }
            Lit same = F; for (auto& a : e1.cands) for (auto& b : e2.cands) if (a.a < b.a + e2.size && b.a < a.a + e1.size) same = G.OR(same, G.AND(a.c, b.c));
            if (same == F) continue;
            Lit en = G.AND(G.AND(e1.guard, e2.guard), same); if (en == F) continue;
            // e1 (flagged) executed first and does not happen before e2
            Lit b1 = G.AND(en, G.AND(before(e1.id, e2.id), neg(H[e2.id][i])));
            if (b1 != F) E.bads.push_back({b1, "data race with " + e1.loc, e2.loc, e2.thread});
            if (!e2.flagged) {
                // the atomic access first: needs the symmetric relation, approximated by requiring the flagged access to be ordered after it through a read
            }
        }
    }
};

static std::map<std::string, std::string> parseOpts(std::string s) {
    std::map<std::string, std::string> r; std::istringstream in(s); std::string t;
    while (in >> t) { auto p = t.find('='); if (p == std::string::npos) r[t] = "1"; else r[t.substr(0, p)] = t.substr(p + 1); }
    return r;
}
static std::string gstr1(Module& M, std::string n) {
    if (auto* g = M.getNamedGlobal(n)) if (g->hasInitializer()) {
        const Constant* c = g->getInitializer();
        if (auto* a = dyn_cast<ConstantDataSequential>(c)) { std::string s = a->getAsString().str(); while (!s.empty() && !s.back()) s.pop_back(); return s; }
        if (auto* o = dyn_cast<GlobalVariable>(c->stripPointerCasts())) if (o->hasInitializer()) if (auto* a = dyn_cast<ConstantDataSequential>(o->getInitializer())) { std::string s = a->getAsString().str(); while (!s.empty() && !s.back()) s.pop_back(); return s; }
    }
    return "";
}

static std::string gstr(Module& M, std::string n) { std::string r = gstr1(M, n); auto p = n.find("opt_"); if (r.empty()) { auto q = n.find('_', 4); if (q != std::string::npos) r = gstr1(M, "opt_" + n.substr(q + 1)); } return r; }

// ---- support of the replay: the same bitcode, with a call before every memory access, is compiled to machine code
template < class F > static void number(Module& M, F f) {
    int n = 0;
    for (auto& fn : M) for (auto& b : fn) for (auto& i : b) if (isa<LoadInst>(i) || isa<StoreInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<AtomicRMWInst>(i)) f(i, ++n);
}
static int instrument(Module& M, std::string const& out) {
    auto& X = M.getContext(); auto* i32 = Type::getInt32Ty(X); auto* i64 = Type::getInt64Ty(X); auto* pt = PointerType::get(X, 0); auto& DL = M.getDataLayout();
    auto hook = M.getOrInsertFunction("rt_access", i32, i32, pt, i64, i32);
    std::vector<std::pair<Instruction*, int>> todo; number(M, [&](Instruction& I, int n) { todo.push_back({&I, n}); });
    for (auto& t : todo) {
        Instruction* I = t.first; Value* p = nullptr; Type* ty = nullptr; int kind = 0; bool at = I->isAtomic();
        if (auto* l = dyn_cast<LoadInst>(I)) p = l->getPointerOperand(), ty = l->getType();
        else if (auto* s = dyn_cast<StoreInst>(I)) p = s->getPointerOperand(), ty = s->getValueOperand()->getType(), kind = 1;
        else if (auto* c = dyn_cast<AtomicCmpXchgInst>(I)) p = c->getPointerOperand(), ty = c->getNewValOperand()->getType(), kind = 2;
        else if (auto* r = dyn_cast<AtomicRMWInst>(I)) p = r->getPointerOperand(), ty = r->getValOperand()->getType(), kind = 2;
        Instruction* call = CallInst::Create(hook, {ConstantInt::get(i32, t.second), p, ConstantInt::get(i64, DL.getTypeStoreSize(ty).getFixedValue()), ConstantInt::get(i32, kind + (at ? 4 : 0))}, "", I);
        call->setDebugLoc(I->getDebugLoc());
        if (auto* c = dyn_cast<AtomicCmpXchgInst>(I)) if (c->isWeak() && ty->isIntegerTy() && ty->getIntegerBitWidth() <= 64) {      // a spurious failure: compare with something else
            auto* cur = new LoadInst(ty, p, "", I); auto* inv = BinaryOperator::CreateNot(cur, "", I);
            auto* z = new ICmpInst(I, CmpInst::ICMP_NE, call, ConstantInt::get(i32, 0));
            c->setOperand(1, SelectInst::Create(z, inv, c->getCompareOperand(), "", I));
        }
    }
    for (auto& fn : M) { auto n = fn.getName(); if (fn.isDeclaration() && (n.starts_with("_Znwm") || n.starts_with("_Znam") || n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "malloc" || n == "free" || n == "calloc" || n == "memalign" || n == "aligned_alloc" || n == "posix_memalign")) fn.setName("__wrap_" + n.str()); }
    for (auto& fn : M) if (!fn.isDeclaration() && fn.hasLinkOnceLinkage()) { fn.setComdat(nullptr); fn.setLinkage(GlobalValue::InternalLinkage); }     // not to be shared with the runtime
    std::error_code ec; raw_fd_ostream o(out, ec); if (ec) return 3;
    WriteBitcodeToFile(M, o);
    return 0;
}
int main(int argc, char** argv) {
    LLVMContext ctx; SMDiagnostic err;
    std::string file, scen, tmp = "/tmp"; double timeout = 300; bool list = false; std::string tier = "quick"; std::string solver = "kissat"; std::string extra, instrumentTo;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--list") list = true; else if (a == "--tmp") tmp = argv[++i]; else if (a == "--timeout") timeout = atof(argv[++i]); else if (a == "--instrument") instrumentTo = argv[++i]; else if (a == "--solver") solver = argv[++i]; else if (a == "--opt") extra += std::string(" ") + argv[++i];
        else if (file.empty()) file = a; else scen = a;
    }
    auto M = parseIRFile(file, err, ctx);
    if (!M) { err.print("lfbmc", errs()); return 3; }
    if (!instrumentTo.empty()) return instrument(*M, instrumentTo);
    if (list) {
        std::set<std::string> names;
        for (auto& f : *M) { if (f.isDeclaration()) continue; std::string n = f.getName().str(); if (n.rfind("seq_", 0) == 0) names.insert(n); if (n.rfind("conc_", 0) == 0) { auto p = n.find("__t0"); if (p != std::string::npos && p + 4 == n.size()) names.insert(n.substr(0, p)); } }
        for (auto& n : names) printf("%s\t%s\n", n.c_str(), gstr(*M, "opt_" + n).c_str());
        return 0;
    }
    double t0 = now();
    std::string status = "ok", detail; std::ostringstream js;
    Engine E(M.get());
    Conc C(E);
    number(*M, [&](Instruction& I, int n) { E.instNo[&I] = n; });
    auto opts = parseOpts(gstr(*M, "opt_" + scen) + extra);
    if (opts.count("unwind")) E.unwind = atoi(opts["unwind"].c_str()); else if (scen.rfind("seq_", 0) == 0) E.unwind = 70;
    if (opts.count("finunwind")) E.finUnwind = atoi(opts["finunwind"].c_str());
    if (opts.count("spurious")) E.spurious = atoi(opts["spurious"].c_str());
    if (opts.count("mm")) E.ra = opts["mm"] == "ra";
    if (opts.count("race")) E.race = true;
    if (opts.count("grow")) E.growMax = atoi(opts["grow"].c_str());
    if (opts.count("stall")) { std::istringstream in(opts["stall"]); std::string t; while (std::getline(in, t, ',')) E.stall.insert(atoi(t.c_str())); }
    int unwindUsed = E.unwind; int passes = 0; double tExec = 0, tSolve = 0; long vars = 0, cls = 0; int queries = 0;
    std::vector<std::string> violations; std::string traceOut; bool exceedReach = false; std::vector<std::string> coverMiss, coverOk; std::string exceedLoc;
    try {
        bool early = false;
        try {
        for (auto& g : M->globals()) if (!g.getName().starts_with("llvm.")) E.addrOf(&g);
        for (auto& f : *M) if (!f.isIntrinsic()) E.addrOf(&f);
        State s = E.base;
        if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer()))
            for (auto& o : ca->operands()) if (auto* fn = dyn_cast<Function>(cast<ConstantStruct>(o)->getOperand(1)->stripPointerCasts())) { auto r = E.call(fn, {}, std::move(s), nullptr); s = std::move(r.rs); }
        E.base = s;
        Function* seq = M->getFunction(scen);
        if (seq && !seq->isDeclaration() && scen.rfind("seq_", 0) == 0) {
            auto o = E.call(seq, {}, std::move(s), nullptr);
            if (o.exc) E.bad(o.es, T, "an exception leaves the scenario", nullptr);
            if (o.ret) E.covers.push_back({o.rs.g, "the scenario can finish"}); else E.covers.push_back({F, "the scenario can finish"});
        } else {
            Function* fi = M->getFunction(scen + "__init"); Function* ff = M->getFunction(scen + "__final");
            std::vector<Function*> th; for (int t = 0; t < 8; t++) if (auto* f = M->getFunction(scen + "__t" + std::to_string(t))) th.push_back(f); else break;
            if (th.empty()) throw Unsupported("no such scenario: " + scen);
            C.nt = th.size();
            int uw = E.unwind; E.unwind = 70;
            if (fi) { auto o = E.call(fi, {}, std::move(s), nullptr); if (!o.ret) throw Unsupported("init does not return"); if (o.exc) E.bad(o.es, T, "an exception leaves the scenario", nullptr); s = std::move(o.rs); }
            E.unwind = uw;
            C.s0 = s;
            auto nb = E.bads.size(), nc = E.covers.size(), nn = E.nondets.size(), nx = E.exceeds.size(); auto na = E.assumes.size(); int ns = E.nondetSeq;
            auto heap0 = E.heapTop;
            auto covers0 = E.covers;
            for (bool again = true; again;) {
            again = false; E.unwind = uw; C.q = Query();
            for (passes = 1;; passes++) {
                E.bads.resize(nb); E.covers = covers0; E.nondets.resize(nn); E.exceeds.resize(nx); E.assumes.resize(na); E.nondetSeq = ns; E.spuriousLits.clear(); E.invariants.clear(); E.feas.reset();
                E.ev.clear(); E.tev.assign(C.nt, {}); E.acc.assign(C.nt + 1, {}); E.heapTop = heap0; E.knownChanged = false; E.forceShared.clear();
                // seed what is known about newly shared bytes
                E.wideNow = passes > 14; E.passNo = passes;
                for (uint64_t a : E.shared) {
                    auto& k = E.bset[a]; if (k.init) continue; k.init = true; E.knownChanged = true;
                    const Lit* b = E.peek(C.s0, a);
                    if (b) { std::vector<uint64_t> vs; bool ok = E.feas.enumerate(C.s0.g, BV(b, b + 8), Engine::SETMAX, vs); E.addVal(k, ok, vs); }
                    else if (!Engine::threadHeap(a)) k.top = true;
                }
                for (uint64_t a : E.shared) {
                    if (a % 8) continue; bool all = true; for (int i = 0; i < 8; i++) all &= E.shared.count(a + i) > 0;
                    if (!all) continue;
                    auto& k = E.wset[a]; if (k.init) continue; k.init = true; E.knownChanged = true;
                    int set = 0; for (int i = 0; i < 6; i++) set += E.peek(C.s0, a + i) != nullptr;
                    if (set == 6) { std::vector<uint64_t> vs; bool ok = E.feas.enumerate(C.s0.g, E.rawLoad(C.s0, a, 6), Engine::SETMAX, vs); E.addWord(k, ok, vs); }
                    else if (set || !Engine::threadHeap(a)) k.top = true;
                }
                C.out.clear(); C.out.resize(C.nt);
                E.phase = 1; E.doneLit.assign(C.nt, F);
                for (int t = 0; t < C.nt; t++) {
                    E.cur = t; State x = C.s0;
                    C.out[t] = E.call(th[t], {}, std::move(x), nullptr);
                    if (C.out[t].exc) E.bad(C.out[t].es, T, "an exception leaves the thread", nullptr);
                    E.doneLit[t] = C.out[t].ret ? C.out[t].rs.g : F;
                }
                E.cur = -1;
                bool grew = false;
                std::unordered_map<uint64_t, int> wr; 
                for (int t = 0; t <= C.nt; t++) for (uint64_t a : E.acc[t].wr) { auto it = wr.find(a); if (it == wr.end()) wr[a] = t; else if (it->second != t) it->second = 99; }
                auto consider = [&](uint64_t a, int t) { auto it = wr.find(a); if (it == wr.end()) return; if ((it->second == 99 || it->second != t) && !E.shared.count(a)) { if (it->second == 99 && false) return; E.shared.insert(a); grew = true; } };
                for (int t = 0; t <= C.nt; t++) {
                    if (t == C.nt) break;
                    for (uint64_t a : E.acc[t].rd) consider(a, t);
                    for (uint64_t a : E.acc[t].wr) consider(a, t);
                }
                for (uint64_t a : E.forceShared) if (E.shared.insert(a).second) grew = true;
                if (verbose) fprintf(stderr, "%.2fs (feas %ld %.2fs) pass %d: events %zu shared %zu grew %d known %d nodes %zu\n", now() - t0, E.feas.queries, E.feas.secs, passes, E.ev.size(), E.shared.size(), grew, E.knownChanged, G.n.size());
                if (verbose && getenv("LF_PASS") && atoi(getenv("LF_PASS")) == passes) { for (auto& e : E.ev) { fprintf(stderr, "  T%d.%d %s size %d cands %zu:", e.thread, e.idx, e.what.c_str(), e.size, e.cands.size()); int k = 0; for (auto& c : e.cands) if (++k < 12) fprintf(stderr, " %lx", (unsigned long)c.a); fprintf(stderr, " rv="); for (int i = (int)e.rv.size() - 1; i >= 0; i--) fputc(e.rv[i] == F ? '0' : e.rv[i] == T ? '1' : 'x', stderr); fprintf(stderr, "  %s\n", e.loc.c_str()); } exit(1); }
                if (!grew && !E.knownChanged) break;
                if (passes > 80) throw Unsupported("no fixpoint");
            }
            C.buildCells(); C.encode(); C.buildFinal();
            E.beforeFn = [&](int a, int b) { Lit r = F; for (auto& x : E.ev) if (x.kind == E_MARK && x.mark == a) for (auto& y : E.ev) if (y.kind == E_MARK && y.mark == b) r = G.OR(r, G.AND(G.AND(x.guard, y.guard), C.before(x.id, y.id))); return r; };
            E.phase = 2; E.cur = -1; E.unwind = 70;
            for (auto& c : C.q.clauses) E.feas.clause(c);
            Lit fg = C.fin.g;
            E.covers.push_back({fg, "all threads can finish"});
            if (ff) { auto o = E.call(ff, {}, std::move(C.fin), nullptr); if (o.exc) E.bad(o.es, T, "an exception leaves the final phase", nullptr); E.covers.push_back({o.ret ? o.rs.g : F, "the scenario can finish"}); }
            // what the final phase reads of a thread that may stop must be events: its memory is that of the moment it stopped
            for (int t : E.stall) for (uint64_t a : E.acc[t].wr) if (E.acc[C.nt].rd.count(a) && !(a >= Engine::STACK + 0x1000000 && !(a & Engine::HI)) && E.shared.insert(a).second) again = true;
            }
        }
        } catch (Early const&) { early = true; }
        tExec = now() - t0;
        if (verbose) { fprintf(stderr, "exec %.2fs nodes %zu events %zu bads %zu covers %zu exceeds %zu feas %ld (%.2fs) clauses %zu cells %zu\n", tExec, G.n.size(), E.ev.size(), E.bads.size(), E.covers.size(), E.exceeds.size(), E.feas.queries, E.feas.secs, C.q.clauses.size(), C.cells.size()); 
            if (getenv("LF_EVENTS")) for (auto& e : E.ev) { fprintf(stderr, "  T%d.%d %s size %d cands", e.thread, e.idx, e.what.c_str(), e.size); for (auto& c : e.cands) fprintf(stderr, " %lx", (unsigned long)c.a); fprintf(stderr, "  %s\n", e.loc.c_str()); } }
        std::string tf = tmp + "/lfbmc." + std::to_string(getpid()) + ".cnf";
        auto run = [&](std::vector<Lit> any) { Query q = C.q; q.add(any); queries++; Answer a = solve(q, timeout, tf, solver); tSolve += a.secs; vars = std::max(vars, a.vars); cls = std::max(cls, a.cls); return a; };
        auto trace = [&](Answer& a) {
            std::ostringstream o;
            o << "\"nondet\":[";
            bool first = true;
            for (auto& n : E.nondets) { if (!a.val(n.g)) continue; o << (first ? "" : ",") << "{\"thread\":" << n.thread << ",\"name\":" << jstr(n.name) << ",\"value\":" << a.bv(n.v) << "}"; first = false; }
            o << "],\"schedule\":[";
            std::vector<int> seq; for (auto& e : E.ev) if (a.val(e.guard)) seq.push_back(e.id);
            // topological order of the enabled events
            std::vector<int> pos(C.nt, 0); std::vector<std::vector<int>> pt(C.nt); for (int id : seq) pt[E.ev[id].thread].push_back(id);
            std::vector<int> sched;
            for (size_t k = 0; k < seq.size(); k++) {
                int pick = -1;
                for (int t = 0; t < C.nt && pick < 0; t++) { if (pos[t] >= (int)pt[t].size()) continue; bool ok = true; for (int u = 0; u < C.nt && ok; u++) if (u != t && pos[u] < (int)pt[u].size() && a.val(C.before(pt[u][pos[u]], pt[t][pos[t]]))) ok = false; if (ok) pick = t; }
                if (pick < 0) break;
                sched.push_back(pt[pick][pos[pick]++]);
            }
            first = true;
            for (int id : sched) {
                Event& e = E.ev[id]; uint64_t ad = 0; for (auto& c : e.cands) if (a.val(c.c)) { ad = c.a; break; }
                o << (first ? "" : ",") << "{\"t\":" << e.thread << ",\"op\":" << jstr(e.what) << ",\"addr\":\"0x" << std::hex << ad << std::dec << "\",\"size\":" << e.size;
                if (e.kind == E_READ || e.kind == E_RMW) o << ",\"read\":\"0x" << std::hex << a.bv(e.rv) << std::dec << "\"";
                if (e.kind == E_WRITE || (e.kind == E_RMW && a.val(e.wcond))) o << ",\"write\":\"0x" << std::hex << a.bv(e.wv) << std::dec << "\"";
                if (e.kind == E_RMW) o << ",\"success\":" << (a.val(e.wcond) ? "true" : "false");
                o << ",\"i\":" << e.inst << ",\"at\":" << jstr(e.loc) << "}"; first = false;
            }
            o << "]";
            return o.str();
        };
        std::vector<Lit> any; for (auto& b : E.bads) any.push_back(b.cond);
        if (!any.empty()) {
            Answer a = run(any);
            if (a.status == 0) { status = "unknown"; detail = "the solver did not decide the violation query"; }
            if (a.status == 10) {
                status = "violation";
                // report those bads that hold in this model, first one first
                for (auto& b : E.bads) if (a.val(b.cond)) violations.push_back(b.msg + " at " + b.loc + (b.thread >= 0 ? " (thread " + std::to_string(b.thread) + ")" : ""));
                traceOut = trace(a);
            }
        } else queries++;
        if (early && status != "violation") { status = "unknown"; detail = "the violation found during execution was not confirmed"; }
        // the loop bound is sufficient
        if (status != "violation" && !E.exceeds.empty()) {
            std::vector<Lit> ex; for (auto& b : E.exceeds) ex.push_back(b.cond);
            Answer a = run(ex);
            if (a.status == 10) { exceedReach = true; for (auto& b : E.exceeds) if (a.val(b.cond)) { exceedLoc = b.msg + " at " + b.loc; break; } if (opts.count("complete")) { status = "violation"; violations.push_back("progress: " + exceedLoc); traceOut = trace(a); } }
            if (a.status == 0 && opts.count("complete") && status == "ok") { status = "unknown"; detail = "the solver did not decide the unwinding query"; }
            if (a.status == 0) exceedReach = true;
        }
        // vacuity: every cover must be reachable
        if (status == "ok" && !opts.count("nocover")) {
            // try to satisfy several covers at once first
            for (auto& c : E.covers) {
                Answer a = run({c.cond});
                (a.status == 10 ? coverOk : coverMiss).push_back(c.msg);
                if (a.status == 0) { status = "unknown"; detail = "cover undecided: " + c.msg; }
            }
            if (!coverMiss.empty() && status == "ok") status = "vacuous";
        }
    } catch (Unsupported const& u) { status = "unsupported"; detail = u.what(); }
    js << "{\"scenario\":" << jstr(scen) << ",\"status\":" << jstr(status) << ",\"detail\":" << jstr(detail) << ",\"exec_seconds\":" << tExec << ",\"solver_seconds\":" << tSolve + E.feas.secs
       << ",\"queries\":" << queries << ",\"feasibility_queries\":" << E.feas.queries << ",\"vars\":" << vars << ",\"clauses\":" << cls << ",\"instructions\":" << E.steps << ",\"symbolic_branches\":" << E.branches << ",\"merges\":" << E.merges
       << ",\"events\":" << E.ev.size() << ",\"threads\":" << C.nt << ",\"assertions\":" << E.bads.size() << ",\"discharged_during_execution\":" << E.discharged << ",\"passes\":" << passes << ",\"unwind\":" << unwindUsed << ",\"bound_exceeded\":" << (exceedReach ? "true" : "false") << ",\"exceed_at\":" << jstr(exceedLoc);
    auto arr = [&](const char* k, std::vector<std::string> const& v) { js << ",\"" << k << "\":["; for (size_t i = 0; i < v.size(); i++) js << (i ? "," : "") << jstr(v[i]); js << "]"; };
    arr("violations", violations); arr("covered", coverOk); arr("not_covered", coverMiss);
    js << ",\"functions\":["; bool first = true; for (auto& f : E.funcs) { js << (first ? "" : ",") << jstr(f); first = false; } js << "]";
    if (!traceOut.empty()) js << "," << traceOut;
    js << "}\n";
    fputs(js.str().c_str(), stdout);
    return 0;
}
