// And-inverter/xor/mux graph with structural hashing and bit-vectors on top of it.
// Every value of the symbolically executed program is a vector of literals of this graph.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>

typedef int Lit;                       // 2*node + negation
static const Lit F = 0, T = 1;         // node 0 is the constant
inline Lit neg(Lit a) { return a ^ 1; }
inline bool isC(Lit a) { return a < 2; }

enum NodeType : uint8_t { N_CONST, N_IN, N_AND, N_XOR, N_MUX };
struct Node { NodeType t; Lit a, b, c; };

struct Aig {
    std::vector<Node> n;
    struct K { Lit a, b, c; uint8_t t; bool operator==(K const& o) const { return a == o.a && b == o.b && c == o.c && t == o.t; } };
    struct H { size_t operator()(K const& k) const {
        uint64_t h = (uint64_t)k.a * 0x9E3779B97F4A7C15ull; h ^= h >> 29; h += (uint64_t)k.b; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
        h += (uint64_t)k.c * 31 + k.t; h *= 0x94D049BB133111EBull; return h ^ (h >> 31); } };
    std::unordered_map<K, int, H> tab;
    Aig() { n.push_back({N_CONST, 0, 0, 0}); tab.reserve(1 << 16); }
    Lit mk(NodeType t, Lit a, Lit b, Lit c) {
        K k{a, b, c, (uint8_t)t};
        auto it = tab.find(k);
        if (it != tab.end()) return it->second * 2;
        int id = (int)n.size();
        n.push_back({t, a, b, c});
        tab.emplace(k, id);
        return id * 2;
    }
    Lit input() { n.push_back({N_IN, 0, 0, 0}); return (Lit)(n.size() - 1) * 2; }
    bool isAnd(Lit a) const { return n[a >> 1].t == N_AND; }
    Lit AND(Lit a, Lit b) {
        if (a == F || b == F || a == neg(b)) return F;
        if (a == T || a == b) return b;
        if (b == T) return a;
        for (int rep = 0; rep < 2; rep++) {
            if (isAnd(a)) {
                Lit x = n[a >> 1].a, y = n[a >> 1].b;
                if (!(a & 1)) {
                    if (b == x || b == y) return a;
                    if (b == neg(x) || b == neg(y)) return F;
                } else {
                    if (b == neg(x) || b == neg(y)) return b;
                    if (b == x) return AND(b, neg(y));
                    if (b == y) return AND(b, neg(x));
                    if (isAnd(b) && (b & 1)) {
                        Lit u = n[b >> 1].a, v = n[b >> 1].b;   // !(x&y) & !(u&v)
                        if (x == u && y == neg(v)) return neg(x);
                        if (x == v && y == neg(u)) return neg(x);
                        if (y == u && x == neg(v)) return neg(y);
                        if (y == v && x == neg(u)) return neg(y);
                    }
                }
            }
            std::swap(a, b);
        }
        if (a > b) std::swap(a, b);
        return mk(N_AND, a, b, 0);
    }
    Lit OR(Lit a, Lit b) { return neg(AND(neg(a), neg(b))); }
    Lit XOR(Lit a, Lit b) {
        if (a == b) return F;
        if (a == neg(b)) return T;
        if (isC(a)) return b ^ a;
        if (isC(b)) return a ^ b;
        Lit s = (a & 1) ^ (b & 1);
        a &= ~1; b &= ~1;
        if (a > b) std::swap(a, b);
        return mk(N_XOR, a, b, 0) ^ s;
    }
    Lit EQ(Lit a, Lit b) { return neg(XOR(a, b)); }
    Lit MUX(Lit c, Lit t, Lit e) {
        if (c == T) return t;
        if (c == F) return e;
        if (t == e) return t;
        if (c & 1) { c ^= 1; std::swap(t, e); }
        if (n[t >> 1].t == N_MUX && n[t >> 1].a == c) t = n[t >> 1].b ^ (t & 1);
        if (n[e >> 1].t == N_MUX && n[e >> 1].a == c) e = n[e >> 1].c ^ (e & 1);
        if (t == e) return t;
        if (t == c) t = T; else if (t == neg(c)) t = F;
        if (e == c) e = F; else if (e == neg(c)) e = T;
        if (t == e) return t;
        if (t == T) return OR(c, e);
        if (t == F) return AND(neg(c), e);
        if (e == T) return OR(neg(c), t);
        if (e == F) return AND(c, t);
        if (t == neg(e)) return XOR(c, e);
        Lit s = t & 1;                    // normalise: then-branch positive
        return mk(N_MUX, c, t ^ s, e ^ s) ^ s;
    }
    Lit IMP(Lit a, Lit b) { return OR(neg(a), b); }
};
extern Aig G;

typedef std::vector<Lit> BV;
inline BV bvc(int w, uint64_t v) { BV r(w); for (int i = 0; i < w; i++) r[i] = i < 64 ? ((v >> i) & 1) : 0; return r; }
inline bool bvConst(BV const& a) { for (Lit l : a) if (!isC(l)) return false; return true; }
inline uint64_t bvVal(BV const& a) { uint64_t v = 0; for (size_t i = 0; i < a.size() && i < 64; i++) v |= (uint64_t)(a[i] == T) << i; return v; }
inline BV bvFresh(int w) { BV r(w); for (auto& l : r) l = G.input(); return r; }
inline BV bvMux(Lit c, BV const& a, BV const& b) { if (c == T) return a; if (c == F) return b; BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = G.MUX(c, a[i], b[i]); return r; }
inline BV bvNot(BV a) { for (auto& l : a) l = neg(l); return a; }
inline BV bvAnd(BV const& a, BV const& b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = G.AND(a[i], b[i]); return r; }
inline BV bvOr(BV const& a, BV const& b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = G.OR(a[i], b[i]); return r; }
inline BV bvXor(BV const& a, BV const& b) { BV r(a.size()); for (size_t i = 0; i < a.size(); i++) r[i] = G.XOR(a[i], b[i]); return r; }
inline BV bvAddC(BV const& a, BV const& b, Lit cin, Lit* cout = nullptr) {
    BV r(a.size()); Lit c = cin;
    for (size_t i = 0; i < a.size(); i++) {
        Lit x = G.XOR(a[i], b[i]);
        r[i] = G.XOR(x, c);
        c = G.MUX(x, c, a[i]);
    }
    if (cout) *cout = c;
    return r;
}
inline BV bvAdd(BV const& a, BV const& b) { return bvAddC(a, b, F); }
inline BV bvSub(BV const& a, BV const& b) { return bvAddC(a, bvNot(b), T); }
inline BV bvNeg(BV const& a) { return bvAddC(bvc(a.size(), 0), bvNot(a), T); }
inline Lit bvEq(BV const& a, BV const& b) {
    Lit r = T;
    for (size_t i = 0; i < a.size(); i++) if (isC(a[i]) && isC(b[i]) && a[i] != b[i]) return F;
    for (size_t i = 0; i < a.size(); i++) { r = G.AND(r, G.EQ(a[i], b[i])); if (r == F) return F; }
    return r;
}
inline Lit bvUlt(BV const& a, BV const& b) { // a < b
    Lit r = F;
    for (size_t i = 0; i < a.size(); i++) r = G.MUX(G.XOR(a[i], b[i]), b[i], r);
    return r;
}
inline Lit bvUle(BV const& a, BV const& b) { return neg(bvUlt(b, a)); }
inline Lit bvSlt(BV a, BV b) { a.back() = neg(a.back()); b.back() = neg(b.back()); return bvUlt(a, b); }
inline BV bvZext(BV a, int w) { a.resize(w, F); return a; }
inline BV bvSext(BV a, int w) { Lit s = a.back(); a.resize(w, s); return a; }
inline BV bvTrunc(BV a, int w) { a.resize(w); return a; }
inline BV bvSlice(BV const& a, int lo, int w) { return BV(a.begin() + lo, a.begin() + lo + w); }
inline BV bvShlC(BV const& a, uint64_t k) { BV r(a.size(), F); for (size_t i = k; i < a.size(); i++) r[i] = a[i - k]; return r; }
inline BV bvShrC(BV const& a, uint64_t k, Lit fill) { BV r(a.size(), fill); for (size_t i = 0; i + k < a.size(); i++) r[i] = a[i + k]; return r; }
inline BV bvShift(BV const& a, BV const& s, int kind) { // 0 shl 1 lshr 2 ashr
    BV r = a; Lit fill = kind == 2 ? a.back() : F; Lit over = F;
    for (size_t i = 0; i < s.size(); i++) {
        if (i < 8 && (1ull << i) < a.size()) {
            BV sh = kind == 0 ? bvShlC(r, 1ull << i) : bvShrC(r, 1ull << i, fill);
            r = bvMux(s[i], sh, r);
        } else over = G.OR(over, s[i]);
    }
    return bvMux(over, BV(a.size(), kind == 0 ? F : fill), r);
}
inline BV bvMul(BV const& a, BV const& b) {
    BV r = bvc(a.size(), 0);
    BV const *x = &a, *y = &b;
    if (bvConst(a)) std::swap(x, y);
    for (size_t i = 0; i < y->size(); i++) {
        if ((*y)[i] == F) continue;
        BV sh = bvShlC(*x, i);
        for (auto& l : sh) l = G.AND(l, (*y)[i]);
        r = bvAdd(r, sh);
    }
    return r;
}
inline void bvUdivrem(BV const& a, BV const& b, BV& q, BV& r) {
    int w = a.size();
    if (bvConst(b)) {
        uint64_t v = bvVal(b);
        if (v && !(v & (v - 1)) && w <= 64) {
            int k = __builtin_ctzll(v);
            q = bvShrC(a, k, F); r = a; for (int i = k; i < w; i++) r[i] = F; return;
        }
    }
    q = bvc(w, 0); BV rem = bvc(w + 1, 0), bb = bvZext(b, w + 1);
    for (int i = w - 1; i >= 0; i--) {
        rem = bvShlC(rem, 1); rem[0] = a[i];
        Lit ge = bvUle(bb, rem);
        rem = bvMux(ge, bvSub(rem, bb), rem);
        q[i] = ge;
    }
    r = bvTrunc(rem, w);
}
