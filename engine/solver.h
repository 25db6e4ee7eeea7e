// CNF generation (Tseitin, cone of influence only), incremental feasibility checks (minisat) and
// the deciding queries (kissat, as a separate process).
#pragma once
#include "aig.h"
#include <minisat/core/Solver.h>
#include <cstring>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <chrono>
#include <memory>
#include <functional>

inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// --- incremental feasibility ------------------------------------------------------------------
struct Feas {
    std::unique_ptr<Minisat::Solver> s;
    std::vector<int> var;     // node -> minisat var or -1
    long queries = 0; double secs = 0;
    Feas() { reset(); }
    void reset() { s.reset(new Minisat::Solver); var.clear(); }
    Minisat::Lit enc(Lit l) {
        if ((int)var.size() < (int)G.n.size()) var.resize(G.n.size(), -1);
        std::vector<int> st{l >> 1};
        while (!st.empty()) {
            int x = st.back();
            if (var[x] >= 0) { st.pop_back(); continue; }
            Node const& d = G.n[x];
            bool ok = true;
            auto need = [&](Lit k) { if (var[k >> 1] < 0) { st.push_back(k >> 1); ok = false; } };
            if (d.t == N_AND || d.t == N_XOR) { need(d.a); need(d.b); }
            if (d.t == N_MUX) { need(d.a); need(d.b); need(d.c); }
            if (!ok) continue;
            st.pop_back();
            int v = var[x] = s->newVar();
            auto m = [&](Lit k) { return Minisat::mkLit(var[k >> 1], k & 1); };
            Minisat::Lit o = Minisat::mkLit(v);
            if (d.t == N_CONST) s->addClause(~o);
            if (d.t == N_AND) { s->addClause(~o, m(d.a)); s->addClause(~o, m(d.b)); s->addClause(o, ~m(d.a), ~m(d.b)); }
            if (d.t == N_XOR) { auto a = m(d.a), b = m(d.b); s->addClause(~o, a, b); s->addClause(~o, ~a, ~b); s->addClause(o, ~a, b); s->addClause(o, a, ~b); }
            if (d.t == N_MUX) { auto c = m(d.a), a = m(d.b), b = m(d.c); s->addClause(~c, ~a, o); s->addClause(~c, a, ~o); s->addClause(c, ~b, o); s->addClause(c, b, ~o);
                                s->addClause(~a, ~b, o); s->addClause(a, b, ~o); }
        }
        return Minisat::mkLit(var[l >> 1], l & 1);
    }
    // may the literal be true?  (unknown counts as yes)
    bool maybe(Lit l, long budget = 20000, bool* sure = nullptr) {
        if (l == F) return false;
        if (l == T) return true;
        double t = now();
        Minisat::vec<Minisat::Lit> as; as.push(enc(l));
        s->setConfBudget(budget);
        auto r = s->solveLimited(as);
        queries++; secs += now() - t;
        if (sure) *sure = Minisat::toInt(r) == 0;
        return Minisat::toInt(r) != 1;
    }
    void clause(std::vector<Lit> const& c) { Minisat::vec<Minisat::Lit> v; for (Lit l : c) v.push(enc(l)); s->addClause(v); }
    void require(Lit l) { s->addClause(enc(l)); }
    // values of a bit vector when g holds; false when there are more than max of them (or the budget ran out)
    bool enumerate(Lit g, BV const& v, size_t max, std::vector<uint64_t>& out, std::function<bool(uint64_t)> const& keep = nullptr, long budget = 20000) {
        out.clear();
        if (bvConst(v)) { out.push_back(bvVal(v)); return true; }
        double t = now(); bool ok = true;
        Minisat::Lit sel = Minisat::mkLit(s->newVar());
        std::vector<std::pair<int, Minisat::Lit>> bits; uint64_t base = 0;
        for (size_t i = 0; i < v.size(); i++) { if (isC(v[i])) base |= (uint64_t)v[i] << i; else bits.push_back({(int)i, enc(v[i])}); }
        Minisat::vec<Minisat::Lit> as; as.push(enc(g)); as.push(sel);
        for (;;) {
            s->setConfBudget(budget); queries++;
            auto r = Minisat::toInt(s->solveLimited(as));
            if (r == 1) break;
            if (r != 0 || out.size() >= max) { ok = false; break; }
            uint64_t x = base; Minisat::vec<Minisat::Lit> bl; bl.push(~sel);
            for (auto& b : bits) { bool val = Minisat::toInt(s->modelValue(b.second)) == 0; if (val) x |= 1ull << b.first; bl.push(val ? ~b.second : b.second); }
            if (keep && !keep(x)) { ok = false; break; }
            out.push_back(x); s->addClause(bl);
        }
        s->addClause(~sel);
        secs += now() - t; return ok;
    }
    bool maybe2(Lit a, Lit b, long budget = 20000) {
        if (a == F || b == F) return false;
        double t = now();
        Minisat::vec<Minisat::Lit> as; as.push(enc(a)); as.push(enc(b));
        s->setConfBudget(budget);
        auto r = s->solveLimited(as);
        queries++; secs += now() - t;
        return Minisat::toInt(r) != 1;
    }
};

// --- deciding queries ---------------------------------------------------------------------------
struct Query {
    std::vector<std::vector<Lit>> clauses;   // constraints besides the node definitions
    void add(std::vector<Lit> c) {
        std::vector<Lit> d;
        for (Lit l : c) { if (l == T) return; if (l != F) d.push_back(l); }
        clauses.push_back(d);
    }
    void require(Lit l) { add({l}); }
};
struct Answer {
    int status = 0;                 // 10 sat, 20 unsat, 0 unknown
    std::vector<int8_t> value;      // per node, -1 unknown (not in the cone)
    double secs = 0; long vars = 0, cls = 0;
    bool val(Lit l) const { if (l < 2) return l; int x = l >> 1; int8_t v = x < (int)value.size() ? value[x] : -1; return (v == 1) != (bool)(l & 1); }
    uint64_t bv(BV const& b) const { uint64_t v = 0; for (size_t i = 0; i < b.size() && i < 64; i++) v |= (uint64_t)val(b[i]) << i; return v; }
};

struct CnfWriter {
    std::vector<int> id; int nv = 0; long nc = 0; std::string out;
    void num(int v) { char b[16]; int n = snprintf(b, sizeof b, "%d ", v); out.append(b, n); }
    int lit(Lit l) { int v = id[l >> 1]; return l & 1 ? -v : v; }
    void cl(std::initializer_list<int> c) { for (int x : c) num(x); out += "0\n"; nc++; }
};

inline Answer solve(Query const& q, double timeout, std::string const& tmp, std::string const& solver = "kissat") {
    Answer ans; CnfWriter w; w.id.assign(G.n.size(), 0);
    std::vector<int> st;
    for (auto& c : q.clauses) for (Lit l : c) st.push_back(l >> 1);
    std::vector<int> nodes;
    while (!st.empty()) {
        int x = st.back(); st.pop_back();
        if (w.id[x]) continue;
        w.id[x] = ++w.nv; nodes.push_back(x);
        Node const& d = G.n[x];
        if (d.t == N_AND || d.t == N_XOR) { st.push_back(d.a >> 1); st.push_back(d.b >> 1); }
        if (d.t == N_MUX) { st.push_back(d.a >> 1); st.push_back(d.b >> 1); st.push_back(d.c >> 1); }
    }
    for (int x : nodes) {
        Node const& d = G.n[x]; int o = w.id[x];
        if (d.t == N_CONST) w.cl({-o});
        else if (d.t == N_AND) { int a = w.lit(d.a), b = w.lit(d.b); w.cl({-o, a}); w.cl({-o, b}); w.cl({o, -a, -b}); }
        else if (d.t == N_XOR) { int a = w.lit(d.a), b = w.lit(d.b); w.cl({-o, a, b}); w.cl({-o, -a, -b}); w.cl({o, -a, b}); w.cl({o, a, -b}); }
        else if (d.t == N_MUX) { int c = w.lit(d.a), a = w.lit(d.b), b = w.lit(d.c); w.cl({-c, -a, o}); w.cl({-c, a, -o}); w.cl({c, -b, o}); w.cl({c, b, -o}); w.cl({-a, -b, o}); w.cl({a, b, -o}); }
    }
    bool empty = false;
    for (auto& c : q.clauses) { if (c.empty()) empty = true; for (Lit l : c) w.num(w.lit(l)); w.out += "0\n"; w.nc++; }
    ans.vars = w.nv; ans.cls = w.nc;
    if (empty) { ans.status = 20; return ans; }
    double t0 = now();
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { perror(tmp.c_str()); return ans; }
    fprintf(f, "p cnf %d %ld\n", w.nv, w.nc);
    fwrite(w.out.data(), 1, w.out.size(), f); fclose(f);
    int p[2]; if (pipe(p)) return ans;
    pid_t pid = fork();
    if (pid == 0) {
        dup2(p[1], 1); close(p[0]); close(p[1]);
        int nul = open("/dev/null", O_WRONLY); dup2(nul, 2);
        std::string tm = "--time=" + std::to_string((long)timeout);
        std::string tc = std::to_string((long)timeout);
        if (solver == "kissat") execlp("kissat", "kissat", "-q", tm.c_str(), tmp.c_str(), (char*)0);
        if (solver == "kissat") for (const char* c : {"cadical", "/app/lean4-4.33.0/build/release/stage1/bin/cadical"}) execlp(c, c, "-q", "-t", tc.c_str(), tmp.c_str(), (char*)0);
        else execlp(solver.c_str(), solver.c_str(), "-q", "-t", tc.c_str(), tmp.c_str(), (char*)0);
        _exit(99);
    }
    close(p[1]);
    FILE* r = fdopen(p[0], "r");
    std::vector<int8_t> vv(w.nv + 1, -1);
    char* line = nullptr; size_t cap = 0;
    while (getline(&line, &cap, r) > 0) {
        if (line[0] == 's') { if (strstr(line, "UNSAT")) ans.status = 20; else if (strstr(line, "SATISF")) ans.status = 10; }
        else if (line[0] == 'v') { char* s = line + 1; for (;;) { char* e; long v = strtol(s, &e, 10); if (e == s) break; s = e; if (v) vv[labs(v)] = v > 0; } }
    }
    free(line); fclose(r);
    int stt; waitpid(pid, &stt, 0);
    unlink(tmp.c_str());
    ans.secs = now() - t0;
    if (ans.status == 10) { ans.value.assign(G.n.size(), -1); for (int x : nodes) ans.value[x] = vv[w.id[x]]; }
    return ans;
}
