// Symbolic execution of LLVM IR with path merging.  See DESIGN.md, "The engine".
#pragma once
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
#include <bitset>
#include <unordered_set>
#include <string>
#include <cstring>
#include <stdexcept>

struct Early {};     // a violation that is certainly reachable has been found
struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

// ---- memory ------------------------------------------------------------------------------------
static const Lit UNSET = -1, BOT = -3;
struct Page { Lit b[64 * 8]; Page() { for (auto& x : b) x = UNSET; } };
typedef std::shared_ptr<Page> PageP;
struct Chunk { PageP p[64]; };
typedef std::shared_ptr<Chunk> ChunkP;

enum ObjKind { O_GLOBAL, O_HEAP, O_STACK };
struct Obj { uint64_t base, size; ObjKind kind; bool ro; std::string name; int alloc; };  // alloc: 1 malloc, 2 new, 3 new[]

struct Exn { BV obj, type; };
struct State {
    Lit g = T;
    std::vector<ChunkP> mem;
    std::vector<Lit> live, dead;           // per object: allocated and not yet freed (for leak counts); freed (for access checks)
    Exn exn;
    std::vector<Exn> caught;
};

struct Bad { Lit cond; std::string msg, loc; int thread; };
struct Cover { Lit cond; std::string msg; };
struct Nondet { int thread; int seq; std::string name; BV v; Lit g; };

// ---- concurrency -------------------------------------------------------------------------------
struct Cand { uint64_t a; Lit c; };
enum EvKind { E_READ = 1, E_WRITE = 2, E_RMW = 3, E_MARK = 4, E_FENCE = 8, E_FREE = 16 };
struct Event {
    int id, thread, idx; EvKind kind;
    Lit guard; Lit wcond;                 // wcond: write happens (RMW: success)
    std::vector<Cand> cands; int size;
    BV rv, wv;
    bool atomic, weakOnly; Lit acq, rel;  // acquire (of the read), release (of the write)
    int mark; std::string loc, what; bool flagged; int inst;
};

struct Cov { std::string fn; };

struct Engine {
    llvm::Module* M; const llvm::DataLayout* DL;
    Feas feas;
    // --- options of the scenario
    int unwind = 12; int finUnwind = 10; int spurious = 0; std::set<int> stall; bool ra = false, race = false; bool seqPrune = true;
    bool poisonFree = true; int maxIter = 200000;
    // --- objects and addresses
    std::vector<Obj> objs; std::map<uint64_t, int> byBase;
    std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr; std::map<uint64_t, const llvm::Function*> fnAt;
    std::unordered_map<uint64_t, std::vector<Lit>> uninit;     // byte address -> 8 literals
    std::unordered_map<uint64_t, int> chunkIdx;
    uint64_t globalTop = 0x8000000, codeTop = 0x400010000ull;
    std::vector<uint64_t> heapTop, stackTop;                    // per thread + 1 (0 = main)
    State base;                                                 // memory of the globals
    // --- results
    std::vector<Bad> bads; std::vector<Cover> covers; std::vector<Nondet> nondets; std::vector<Bad> exceeds;
    std::vector<Lit> assumes;
    std::set<std::string> funcs; long budgetBad = getenv("BB") ? atol(getenv("BB")) : 20000; long discharged = 0, steps = 0, branches = 0, merges = 0;
    std::vector<Lit> spuriousLits;
    // --- concurrency
    int cur = -1;                                               // current thread, -1 sequential phase
    int phase = 0;                                              // 0 init, 1 threads, 2 final
    std::vector<std::vector<int>> tev;                          // events per thread
    std::vector<Event> ev;
    std::unordered_set<uint64_t> shared;                        // shared byte addresses
    struct Acc { std::unordered_set<uint64_t> rd, wr; };
    std::vector<Acc> acc;                                       // per thread, last = final phase
    bool knownChanged = false;
    std::vector<Lit> doneLit;
    int nondetSeq = 0;
    std::unordered_map<const llvm::Instruction*, int> instNo;   // numbers of the memory accesses, the same in every run (for the replay)
    std::function<Lit(int, int)> beforeFn;                      // lf_before

    static const uint64_t HI = 1ull << 46, HEAP = HI | 0x1000000, STACK = 0x800000000ull;      // heap addresses use the upper address bits
    static int heapOf(uint64_t a) { return (int)((a & ~HI) >> 28); }        // 0: initial heap, t+1: heap of thread t
    static bool threadHeap(uint64_t a) { return (a & HEAP) == HEAP && heapOf(a); }
    explicit Engine(llvm::Module* m) : M(m), DL(&m->getDataLayout()) { heapTop.assign(10, 0); stackTop.assign(10, 0); resetTops(); }
    void resetTops() {
        // one distinguishing bit per region keeps the candidate sets of partially known addresses small
        heapTop[0] = HEAP; stackTop[0] = STACK;
        for (int i = 1; i < 10; i++) { heapTop[i] = HEAP | (uint64_t)i << 28; stackTop[i] = STACK + (uint64_t)i * 0x1000000; }
    }

    // ---- raw memory
    int cidx(uint64_t a) { auto it = chunkIdx.find(a >> 12); if (it != chunkIdx.end()) return it->second; int i = chunkIdx.size(); chunkIdx[a >> 12] = i; return i; }
    std::vector<Lit>& uninitAt(uint64_t a) { auto& v = uninit[a]; if (v.empty()) { v.resize(8); for (auto& l : v) l = G.input(); } return v; }
    const Lit* peek(State& s, uint64_t a) {   // 8 literals or nullptr when unset
        int c = cidx(a);
        if (c >= (int)s.mem.size() || !s.mem[c]) return nullptr;
        PageP& p = s.mem[c]->p[(a >> 6) & 63];
        if (!p) return nullptr;
        Lit* b = p->b + (a & 63) * 8;
        return *b == UNSET ? nullptr : b;
    }
    Lit* poke(State& s, uint64_t a) {
        int c = cidx(a);
        if (c >= (int)s.mem.size()) s.mem.resize(c + 1);
        ChunkP& ch = s.mem[c];
        if (!ch) ch = std::make_shared<Chunk>(); else if (ch.use_count() > 1) ch = std::make_shared<Chunk>(*ch);
        PageP& p = ch->p[(a >> 6) & 63];
        if (!p) p = std::make_shared<Page>(); else if (p.use_count() > 1) p = std::make_shared<Page>(*p);
        return p->b + (a & 63) * 8;
    }
    BV rawLoad(State& s, uint64_t a, int n) {
        BV r(n * 8);
        for (int i = 0; i < n; i++) { const Lit* b = peek(s, a + i); if (!b) b = uninitAt(a + i).data(); for (int k = 0; k < 8; k++) r[i * 8 + k] = b[k]; }
        return r;
    }
    void rawStore(State& s, uint64_t a, BV const& v) {
        int n = (int)v.size() / 8;
        for (int i = 0; i < n; i++) { Lit* b = poke(s, a + i); for (int k = 0; k < 8; k++) b[k] = v[i * 8 + k]; }
    }
    // ---- objects
    int newObj(uint64_t b, uint64_t sz, ObjKind k, bool ro, std::string nm, int al = 0) {
        objs.push_back({b, sz, k, ro, nm, al}); byBase[b] = objs.size() - 1; return objs.size() - 1;
    }
    int objAt(uint64_t a) {
        auto it = byBase.upper_bound(a);
        if (it == byBase.begin()) return -1;
        --it; Obj& o = objs[it->second];
        if (a < o.base || a >= o.base + (o.size ? o.size : 1)) return -1;
        return it->second;
    }
    Lit liveLit(State& s, int o) {
        if (objs[o].kind != O_HEAP) return T;
        if (phase == 1 && threadHeap(objs[o].base) && heapOf(objs[o].base) != cur + 1) return o < (int)s.dead.size() ? neg(s.dead[o]) : T;   // allocated by another thread
        return o < (int)s.live.size() ? s.live[o] : F;
    }
    uint64_t heapAlloc(State& s, uint64_t size, uint64_t align, int kind) {
        uint64_t& top = heapTop[cur + 1];
        if (align < 16) align = 16;
        top = (top + align - 1) & ~(align - 1);
        uint64_t a = top;
        uint64_t rsz = size ? size : 1;
        // leave a red zone, but keep small nodes tightly packed in address space
        uint64_t room = (rsz + align - 1) & ~(align - 1);
        if (room == rsz && align < 64) room += 16;
        if (room == rsz && rsz > 64) room += 64;
        top += room;
        auto it = byBase.find(a);                       // thread heaps are re-used by the passes of the fixpoint
        int o = it != byBase.end() && objs[it->second].size == size ? it->second : newObj(a, size, O_HEAP, false, "heap", kind);
        if ((int)s.live.size() <= o) s.live.resize(o + 1, F);
        if ((int)s.dead.size() <= o) s.dead.resize(o + 1, F);
        s.live[o] = T; s.dead[o] = F;
        if (phase == 1 && kind != 9) for (uint64_t i = 0; i < size; i++) if (shared.insert(a + i).second) {   // assume it is published
            knownChanged = true; bset[a + i].init = true; if ((a + i) % 8 == 0 && i + 8 <= size) wset[a + i].init = true;
        }
        return a;
    }
    // ---- violations
    std::string where(const llvm::Instruction* I) {
        if (!I) return "";
        const llvm::DILocation* l = I->getDebugLoc().get();
        std::string r;
        while (l) { std::string f = l->getFilename().str(); auto p = f.rfind("/lockfree/"); if (p != std::string::npos) f = f.substr(p + 1); else { p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); }
            r += (r.empty() ? "" : " < ") + f + ":" + std::to_string(l->getLine()); l = l->getInlinedAt(); if (r.size() > 300) break; }
        if (r.empty()) r = I->getFunction()->getName().str();
        return r;
    }
    void bad(State& s, Lit c, std::string msg, const llvm::Instruction* I) {
        Lit l = G.AND(s.g, c);
        if (l == F) return;
        bool sure = phase == 0 && l == T;
        if (phase != 1 && l != T && seqPrune && !feas.maybe(l, budgetBad, &sure)) { discharged++; return; }
        bads.push_back({l, msg, where(I), cur});
        if (sure && (phase == 0 || stall.empty())) { bads.front() = bads.back(); bads.resize(1); throw Early{}; }      // certainly reachable: nothing more to explore
        s.g = G.AND(s.g, neg(c));
    }
    // ---- candidates of a symbolic address
    void cands(State& s, BV const& a, uint64_t n, bool wr, std::vector<Cand>& out, Lit& badl) {
        out.clear(); badl = F;
        if (bvConst(a)) {
            uint64_t v = bvVal(a); int o = objAt(v);
            if (o < 0 || v + n > objs[o].base + objs[o].size || (wr && objs[o].ro)) { badl = T; return; }
            badl = neg(liveLit(s, o)); out.push_back({v, T}); return;
        }
        uint64_t mask = 0, val = 0; for (int i = 0; i < 64; i++) if (isC(a[i])) { mask |= 1ull << i; if (a[i] == T) val |= 1ull << i; }
        int tz = 0; while (tz < 12 && ((mask >> tz) & 1)) tz++;
        if (phase == 1 || seqPrune) {   // enumerate the feasible addresses; some of them may be invalid
            std::vector<uint64_t> vs; int wrong = 0;
            auto inside = [&](uint64_t v) { int o = objAt(v); return o >= 0 && v + n <= objs[o].base + objs[o].size && !(wr && objs[o].ro) && !(objs[o].kind == O_STACK && objs[o].alloc != cur) && liveLit(s, o) != F; };
            if (feas.enumerate(s.g, a, 60, vs, [&](uint64_t v) { return inside(v) || ++wrong <= 3; })) {
                std::sort(vs.begin(), vs.end());
                for (uint64_t x : vs) {
                    Lit c = bvEq(a, bvc(64, x)); if (c == F) continue;
                    if (!inside(x)) { badl = G.OR(badl, c); continue; }
                    out.push_back({x, c});
                    Lit dead = G.AND(c, neg(liveLit(s, objAt(x))));
                    if (dead != F && (phase != 1 || feas.maybe2(s.g, dead))) badl = G.OR(badl, dead);
                }
                return;
            }
        }
        uint64_t step = 1ull << tz, low = val & (step - 1);
        Lit any = F; long cnt = 0;
        for (auto& kv : byBase) {
            Obj& o = objs[kv.second];
            if (wr && o.ro) continue;
            if (o.kind == O_STACK && o.alloc != cur) continue;
            Lit lv = liveLit(s, kv.second);
            if (lv == F || o.size < n) continue;
            // quick reject: high bits
            uint64_t lo = o.base, hi = o.base + o.size - 1; uint64_t diff = lo ^ hi; int hb = diff ? 64 - __builtin_clzll(diff) : 0;
            uint64_t hm = hb >= 64 ? 0 : ~((1ull << hb) - 1);
            if ((lo & hm & mask) != (val & hm)) continue;
            uint64_t x = (lo & ~(step - 1)) | low; if (x < lo) x += step;
            for (; x + n <= o.base + o.size; x += step) {
                if ((x & mask) != val) continue;
                Lit c = T;
                for (int i = 0; i < 64; i++) if (!isC(a[i])) c = G.AND(c, (x >> i) & 1 ? a[i] : neg(a[i]));
                if (c == F) continue;
                Lit cl = G.AND(c, lv);
                if (seqPrune && !feas.maybe2(s.g, cl, 2000)) continue;
                out.push_back({x, c}); any = G.OR(any, cl);
                if (++cnt > 3000) throw Unsupported("too many candidates for a symbolic address");
            }
        }
        badl = neg(any);
    }
    bool isShared(uint64_t a, int n) { for (int i = 0; i < n; i++) if (shared.count(a + i)) return true; return false; }
    void noteAcc(uint64_t a, int n, bool wr) {
        int t = phase == 1 ? cur : phase == 2 ? (int)acc.size() - 1 : -1;
        if (t < 0 || acc.empty()) return;
        auto& st = wr ? acc[t].wr : acc[t].rd;
        for (int i = 0; i < n; i++) st.insert(a + i);
    }
    // the race check covers the accesses made by functions of the harness whose name starts with "lf_payload"
    bool flaggedCtx(const llvm::Instruction* I) {
        if (!race || !I) return false;
        for (const llvm::DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt()) if (auto* sp = l->getScope()->getSubprogram()) if (sp->getName().starts_with("lf_payload")) return true;
        return false;
    }
    Event& newEvent(State& s, EvKind k, const llvm::Instruction* I) {
        if (stall.count(cur)) { s.g = G.AND(s.g, G.input()); }
        Event e; e.id = ev.size(); e.thread = cur; e.idx = tev[cur].size(); e.kind = k; e.guard = s.g; e.wcond = T; e.size = 0; e.atomic = false; e.acq = e.rel = F; e.mark = -1; e.flagged = false; e.weakOnly = false; { auto it = instNo.find(I); e.inst = it == instNo.end() ? 0 : it->second; }
        e.loc = where(I);
        ev.push_back(e); tev[cur].push_back(e.id);
        return ev.back();
    }
    // what a shared byte can hold: an inductive invariant computed by the passes of the fixpoint
    struct ByteSet { bool init = false, top = false; int last = 0, grown = 0; std::bitset<256> v; };
    int passNo = 0; int growMax = 3;
    std::unordered_map<uint64_t, ByteSet> bset;
    std::vector<Lit> invariants;
    static const size_t SETMAX = 20;
    bool wideNow = false;                                       // stop growing sets one value at a time
    void addVal(ByteSet& s, bool ok, std::vector<uint64_t> const& vs) {
        if (s.top) return;
        if (!ok) { s.top = true; knownChanged = true; return; }
        bool ch = false; for (uint64_t x : vs) if (!s.v[x & 255]) { s.v[x & 255] = true; ch = true; }
        if (ch) { knownChanged = true; if (s.last != passNo) { s.last = passNo; s.grown++; } if (wideNow || s.v.count() > SETMAX || s.grown > growMax) s.top = true; }   // counters (tags) are widened early
    }
    // the low 48 bits of aligned 8-byte words (pointers, compressed or not) are tracked as a whole
    struct WordSet { bool init = false, top = false; int last = 0, grown = 0; std::set<uint64_t> v; };
    std::unordered_map<uint64_t, WordSet> wset;
    static const uint64_t LOW48 = 0xffffffffffffull;
    void addWord(WordSet& s, bool ok, std::vector<uint64_t> const& vs) {
        if (s.top) return;
        if (!ok) { s.top = true; knownChanged = true; return; }
        bool cnt = false;
        for (uint64_t x : vs) if (s.v.insert(x & LOW48).second) { knownChanged = true; if ((x & LOW48) && objAt(x & LOW48) < 0) cnt = true; if (wideNow || s.v.size() > SETMAX) s.top = true; }
        if (cnt && s.last != passNo) { s.last = passNo; if (++s.grown > growMax) s.top = true; }      // a word that is no address: widened early, like a byte
    }
    BV knownBV(std::vector<Cand> const& cs, int n) {
        BV r;
        for (int i = 0; i < n;) {
            if (n - i >= 8 && i % 8 == 0) {
                bool ok = true; std::set<uint64_t> u;
                for (auto& c : cs) { auto it = c.a % 8 ? wset.end() : wset.find(c.a + i); if (it == wset.end() || it->second.top || !it->second.init) { ok = false; break; } u.insert(it->second.v.begin(), it->second.v.end()); }
                if (ok && u.size() <= 64) {
                    uint64_t all = LOW48, none = 0; for (uint64_t x : u) { all &= x; none |= x; }
                    if (u.empty()) all = none = 0;
                    BV f(48); for (int b = 0; b < 48; b++) f[b] = (all >> b) & 1 ? T : !((none >> b) & 1) ? F : G.input();
                    if (u.size() > 1) { Lit any = F; for (uint64_t x : u) any = G.OR(any, bvEq(f, bvc(48, x))); invariants.push_back(any); feas.require(any); }
                    r.insert(r.end(), f.begin(), f.end()); i += 6; continue;
                }
            }
            ByteSet u;
            for (auto& c : cs) { auto it = bset.find(c.a + i); if (it == bset.end() || it->second.top) { u.top = true; break; } u.v |= it->second.v; }
            i++;
            if (u.top || u.v.count() > 64) { BV f = bvFresh(8); r.insert(r.end(), f.begin(), f.end()); continue; }
            unsigned all = 255, none = 0; std::vector<int> vs; for (int x = 0; x < 256; x++) if (u.v[x]) { all &= x; none |= x; vs.push_back(x); }
            if (vs.empty()) { all = none = 0; }
            BV f(8); int fr = 0; for (int b = 0; b < 8; b++) if ((all >> b) & 1) f[b] = T; else if (!((none >> b) & 1)) f[b] = F; else { f[b] = G.input(); fr++; }
            if (fr && (int)vs.size() < (1 << fr)) { Lit any = F; for (int x : vs) any = G.OR(any, bvEq(f, bvc(8, x))); invariants.push_back(any); feas.require(any); }
            r.insert(r.end(), f.begin(), f.end());
        }
        return r;
    }
    void widen(Lit g, std::vector<Cand> const& cs, BV const& v) {
        int n = (int)v.size() / 8;
        for (int i = 0; i + 8 <= n; i += 8) {
            bool need = false; for (auto& c : cs) if (c.a % 8 == 0) { auto it = wset.find(c.a + i); if (it != wset.end() && it->second.init && !it->second.top) need = true; }
            if (!need) continue;
            std::vector<uint64_t> vs; bool ok = feas.enumerate(g, bvSlice(v, i * 8, 48), SETMAX, vs);
            for (auto& c : cs) if (c.a % 8 == 0) { auto it = wset.find(c.a + i); if (it != wset.end() && it->second.init) addWord(it->second, ok, vs); }
        }
        // any other write that touches a tracked word
        for (auto& c : cs) for (uint64_t w = c.a & ~7ull; w < c.a + n; w += 8) if (!(c.a % 8 == 0 && w + 8 <= c.a + n)) { auto it = wset.find(w); if (it != wset.end() && it->second.init && c.a < w + 6) addWord(it->second, false, {}); }
        for (int i = 0; i < n; i++) {
            bool need = false; for (auto& c : cs) { auto it = bset.find(c.a + i); if (it != bset.end() && it->second.init && !it->second.top) need = true; }
            if (!need) continue;
            std::vector<uint64_t> vs; bool ok = feas.enumerate(g, bvSlice(v, i * 8, 8), SETMAX, vs);
            for (auto& c : cs) { auto it = bset.find(c.a + i); if (it != bset.end() && it->second.init) addVal(it->second, ok, vs); }
        }
    }
    void split(State& s, BV const& addr, int n, bool wr, const llvm::Instruction* I, std::vector<Cand>& sh, std::vector<Cand>& loc) {
        std::vector<Cand> cs; Lit b; cands(s, addr, n, wr, cs, b);
        bad(s, b, wr ? "invalid write" : "invalid read", I);
        sh.clear(); loc.clear();
        for (auto& c : cs) { noteAcc(c.a, n, wr); if (phase == 1 && isShared(c.a, n)) { sh.push_back(c); for (int i = 0; i < n; i++) if (!shared.count(c.a + i)) forceShared.insert(c.a + i); } else { loc.push_back(c); if (foreign(c.a)) for (int i = 0; i < n; i++) forceShared.insert(c.a + i); } }
    }
    std::unordered_set<uint64_t> forceShared;
    bool foreign(uint64_t a) { return phase == 1 && threadHeap(a) && heapOf(a) != cur + 1; }      // memory another thread allocated
    void align(State& s, BV const& addr, uint64_t al, const llvm::Instruction* I) {
        Lit m = F; for (int i = 0; (1ull << i) < al && i < 12; i++) m = G.OR(m, addr[i]);
        if (m != F) bad(s, m, "misaligned access", I);
    }
    BV localLoad(State& s, std::vector<Cand> const& cs, int n) {
        BV r;
        for (auto& c : cs) { BV v = foreign(c.a) ? bvc(n * 8, 0) : rawLoad(s, c.a, n); r = r.empty() ? v : bvMux(c.c, v, r); }
        return r;
    }
    BV load(State& s, BV const& addr, int n, llvm::AtomicOrdering mo, const llvm::Instruction* I) {
        std::vector<Cand> sh, loc; split(s, addr, n, false, I, sh, loc);
        if (s.g == F || (sh.empty() && loc.empty())) return bvFresh(n * 8);
        BV r = localLoad(s, loc, n);
        if (sh.empty()) return r;
        Event& e = newEvent(s, E_READ, I);
        e.cands = sh; e.size = n; e.rv = knownBV(sh, n); e.atomic = mo != llvm::AtomicOrdering::NotAtomic; e.acq = llvm::isAcquireOrStronger(mo) ? T : F; e.flagged = !e.atomic && flaggedCtx(I);
        e.what = "load";
        return mix(loc, r, e.rv);
    }
    BV mix(std::vector<Cand> const& loc, BV const& lv, BV const& ev) {
        if (loc.empty()) return ev;
        Lit isLoc = F; for (auto& c : loc) isLoc = G.OR(isLoc, c.c);
        return bvMux(isLoc, lv, ev);
    }
    void store(State& s, BV const& addr, BV const& v, llvm::AtomicOrdering mo, const llvm::Instruction* I) {
        std::vector<Cand> sh, loc; int n = v.size() / 8; split(s, addr, n, true, I, sh, loc);
        if (s.g == F) return;
        for (auto& c : loc) { if (c.c == T) rawStore(s, c.a, v); else rawStore(s, c.a, bvMux(c.c, v, rawLoad(s, c.a, n))); }
        if (sh.empty()) return;
        Event& e = newEvent(s, E_WRITE, I);
        e.cands = sh; e.size = n; e.wv = v; e.atomic = mo != llvm::AtomicOrdering::NotAtomic; e.rel = llvm::isReleaseOrStronger(mo) ? T : F; e.flagged = !e.atomic && flaggedCtx(I);
        e.what = "store";
        widen(s.g, sh, v);
    }
    // atomic read-modify-write: newv computed from the old value, returns old value and the condition under which it writes
    template < class Fn >
    BV rmw(State& s, BV const& addr, int n, llvm::AtomicOrdering so, llvm::AtomicOrdering fo, const llvm::Instruction* I, Fn fn, Lit* succ) {
        std::vector<Cand> sh, loc; split(s, addr, n, true, I, sh, loc);
        for (auto& c : sh) noteAcc(c.a, n, false);
        for (auto& c : loc) noteAcc(c.a, n, false);
        if (s.g == F || (sh.empty() && loc.empty())) { *succ = T; return bvFresh(n * 8); }
        BV lv = localLoad(s, loc, n);
        if (sh.empty()) {
            Lit w; BV nv; fn(lv, nv, w);
            for (auto& c : loc) { Lit cc = G.AND(c.c, w); rawStore(s, c.a, bvMux(cc, nv, rawLoad(s, c.a, n))); }
            *succ = w; return lv;
        }
        newEvent(s, E_RMW, I); int id = ev.size() - 1;
        BV rv = knownBV(sh, n);
        BV old = mix(loc, lv, rv); Lit w; BV nv; fn(old, nv, w);
        Event& e = ev[id];
        e.cands = sh; e.size = n; e.rv = rv; e.wv = nv; e.wcond = w; e.atomic = true;
        Lit as = llvm::isAcquireOrStronger(so) ? T : F, af = llvm::isAcquireOrStronger(fo) ? T : F;
        e.acq = G.MUX(w, as, af); e.rel = llvm::isReleaseOrStronger(so) ? T : F; e.what = "rmw";
        for (auto& c : loc) { Lit cc = G.AND(c.c, w); rawStore(s, c.a, bvMux(cc, nv, rawLoad(s, c.a, n))); }
        if (w != F) widen(G.AND(s.g, w), sh, nv);
        *succ = w; return old;
    }

    // ---- merging
    BV mergeBV(Lit c, BV const& a, BV const& b) { if (a.empty()) return b; if (b.empty()) return a; return bvMux(c, a, b); }
    Lit selector(Lit ga, Lit gb) {
        // choose a cheap literal that is true under ga and false under gb
        if (G.isAnd(ga) && !(ga & 1) && G.isAnd(gb) && !(gb & 1)) {
            Node const &x = G.n[ga >> 1], &y = G.n[gb >> 1];
            if (x.a == y.a && x.b == neg(y.b)) return x.b;
            if (x.b == y.b && x.a == neg(y.a)) return x.a;
            if (x.a == y.b && x.b == neg(y.a)) return x.b;
            if (x.b == y.a && x.a == neg(y.b)) return x.a;
        }
        return ga;
    }
    Lit mergeInto(State& a, State&& b) {        // returns the selector: true -> a
        merges++;
        Lit sel = selector(a.g, b.g);
        size_t n = std::max(a.mem.size(), b.mem.size()); a.mem.resize(n); b.mem.resize(n);
        for (size_t c = 0; c < n; c++) {
            if (a.mem[c] == b.mem[c]) continue;
            if (!a.mem[c]) { a.mem[c] = std::make_shared<Chunk>(); } else if (a.mem[c].use_count() > 1) a.mem[c] = std::make_shared<Chunk>(*a.mem[c]);
            uint64_t cb = chunkBase(c);
            for (int k = 0; k < 64; k++) {
                PageP pb = b.mem[c] ? b.mem[c]->p[k] : PageP();
                PageP& pa = a.mem[c]->p[k];
                if (pa == pb) continue;
                PageP r = pa ? std::make_shared<Page>(*pa) : std::make_shared<Page>();
                for (int i = 0; i < 64; i++) {
                    Lit* x = r->b + i * 8; const Lit* y = pb ? pb->b + i * 8 : nullptr; bool yu = !y || *y == UNSET;
                    if (*x == UNSET && yu) continue;
                    uint64_t ad = cb + (uint64_t)k * 64 + i;
                    if (*x == UNSET) { auto& u = uninitAt(ad); for (int q = 0; q < 8; q++) x[q] = u[q]; }
                    if (yu) y = uninitAt(ad).data();
                    for (int q = 0; q < 8; q++) if (x[q] != y[q]) x[q] = G.MUX(sel, x[q], y[q]);
                }
                pa = r;
            }
        }
        size_t m = std::max(a.live.size(), b.live.size()); a.live.resize(m, F); b.live.resize(m, F);
        for (size_t i = 0; i < m; i++) if (a.live[i] != b.live[i]) a.live[i] = G.MUX(sel, a.live[i], b.live[i]);
        m = std::max(a.dead.size(), b.dead.size()); a.dead.resize(m, F); b.dead.resize(m, F);
        for (size_t i = 0; i < m; i++) if (a.dead[i] != b.dead[i]) a.dead[i] = G.MUX(sel, a.dead[i], b.dead[i]);
        a.exn.obj = mergeBV(sel, a.exn.obj, b.exn.obj); a.exn.type = mergeBV(sel, a.exn.type, b.exn.type);
        if (a.caught.size() != b.caught.size()) throw Unsupported("merge with different numbers of caught exceptions");
        for (size_t i = 0; i < a.caught.size(); i++) { a.caught[i].obj = mergeBV(sel, a.caught[i].obj, b.caught[i].obj); a.caught[i].type = mergeBV(sel, a.caught[i].type, b.caught[i].type); }
        a.g = G.OR(a.g, b.g);
        return sel;
    }
    std::vector<uint64_t> chunkBaseV;
    uint64_t chunkBase(size_t c) {
        if (chunkBaseV.size() < chunkIdx.size()) { chunkBaseV.resize(chunkIdx.size()); for (auto& kv : chunkIdx) chunkBaseV[kv.second] = kv.first << 12; }
        return chunkBaseV[c];
    }

    // ---- functions
    struct Item { const llvm::BasicBlock* bb; const llvm::Loop* loop; std::vector<Item> body; };
    struct FnInfo {
        llvm::DominatorTree dt; llvm::LoopInfo li; std::vector<Item> top; std::unordered_map<const llvm::BasicBlock*, int> rpo;
        std::vector<const llvm::AllocaInst*> allocas;
    };
    std::unordered_map<const llvm::Function*, std::unique_ptr<FnInfo>> finfo;
    FnInfo& info(const llvm::Function* Fn);
    struct Pending { State s; std::vector<std::pair<const llvm::PHINode*, BV>> phi; bool has = false; };
    struct Outcome { bool ret = false, exc = false; State rs, es; BV rv; };
    struct Frame {
        const llvm::Function* fn; FnInfo* fi; std::unordered_map<const llvm::Value*, BV> env; std::map<const llvm::BasicBlock*, Pending> pend; Outcome out;
        Frame* up; const llvm::Instruction* callSite; std::vector<std::pair<const llvm::Loop*, bool>> loops;
    };
    int depth = 0;
    Outcome call(const llvm::Function* Fn, std::vector<BV> const& args, State&& s, const llvm::Instruction* site);
    void region(Frame& f, std::vector<Item> const& items, const llvm::Loop* L, Pending* next);
    void block(Frame& f, const llvm::BasicBlock* bb, Pending&& p, const llvm::Loop* L, Pending* next);
    void edge(Frame& f, const llvm::BasicBlock* from, const llvm::BasicBlock* to, State&& s, const llvm::Loop* L, Pending* next);
    void addPending(Pending& p, State&& s, std::vector<std::pair<const llvm::PHINode*, BV>>&& phi);
    void addRet(Frame& f, State&& s, BV v);
    void addExc(Frame& f, State&& s);
    BV val(Frame& f, const llvm::Value* v);
    BV constant(const llvm::Constant* c);
    int width(llvm::Type* t);
    int elemOff(llvm::Type* t, unsigned i, llvm::Type** et);
    BV gep(Frame* f, const llvm::GEPOperator* g);
    BV binop(unsigned op, BV const& a, BV const& b);
    BV castop(unsigned op, BV const& a, int w);
    Lit icmp(llvm::CmpInst::Predicate p, BV const& a, BV const& b);
    bool simple(Frame& f, const llvm::Instruction& I, State& s);
    bool doCall(Frame& f, const llvm::CallBase& C, State& s, Outcome* exc);
    bool builtin(Frame& f, const llvm::CallBase& C, llvm::StringRef n, std::vector<BV>& a, State& s, BV& rv, bool& thrown);
    void memcpyOp(State& s, BV const& d, BV const& src, BV const& n, const llvm::Instruction* I);
    void memsetOp(State& s, BV const& d, BV const& v, BV const& n, const llvm::Instruction* I);
    uint64_t addrOf(const llvm::GlobalValue* g);
    void initGlobal(uint64_t a, const llvm::Constant* c);
    void freeObj(State& s, BV const& p, int kind, const llvm::Instruction* I);
    Lit typeMatches(State& s, BV const& thrown, const llvm::Constant* clause);
    void bases(const llvm::GlobalValue* ti, std::set<const llvm::GlobalValue*>& out);
    std::set<uint64_t> throwTypes;
    std::string cstr(BV const& p);
};
