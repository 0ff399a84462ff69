// replay driver for C16: SIMD equidistribution against exact linear algebra on the output sequence
// VARIANT: -DKIND=1
// VARIANT: -DKIND=2
// VARIANT: -DKIND=3
// VARIANT: -DKIND=4
#include "rp.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <memory>
#include <bitset>
#include <algorithm>
#include <climits>
#include <stdexcept>
#include <cinttypes>
#include <NTL/GF2X.h>
#include <NTL/mat_GF2.h>
#define private public
#define protected public
#if KIND == 1 || KIND == 3
#include <samples/sfmtdc/sfmtsearch.hpp>
#include <samples/sfmtdc/AlgorithmSIMDEquidistribution.hpp>
#define INFO SIMDInfo
#else
#include <samples/dSFMTdc/dSFMTsearch.hpp>
#include <samples/dSFMTdc/AlgorithmDSFMTEquidistribution.hpp>
#define INFO DSFMTInfo
#endif
#undef private
#undef protected
using namespace MTToolBox;
typedef uint64_t u64;
enum { EW = (KIND == 1 || KIND == 3) ? 32 : 64, NE = 128 / EW, MAXT = 1152 };
static int par64(u64 x) { return __builtin_popcountll(x) & 1; }
static void put(w128_t& w, int e, u64 x) { if (EW == 32) w.u[e] = (uint32_t)x; else w.u64[e] = x; }
static u64 get(const w128_t& w, int e) { return EW == 32 ? w.u[e] : w.u64[e]; }
struct TG { // linear generator of 128 bit words with start positions and widths
    int n; std::vector<u64> A, O; u64 s; w128_t last, prev; int sm, wm;
    TG(int n_) : n(n_), A(n_), O(128), sm(0), wm(NE) {
        u64 m = (1ULL << n) - 1; int sh = pick(3);
        for (int i = 0; i < n; i++) A[i] = (sh == 1 ? rnd() & rnd() & rnd() : rnd()) & m;
        for (int i = 0; i < 128; i++) { O[i] = rnd() & m; if (sh == 2 && i && pick(3) == 0) O[i] = O[rnd() % i]; }
        if (pick(3) == 0) { u64 c = rnd() & rnd(); for (int i = 0; i < n; i++) A[i] = (i ? 1ULL << (i - 1) : 0) | (((c >> i) & 1) || !i ? 1ULL << (n - 1) : 0); for (int i = 0; i < 128; i++) O[i] = pick(3) ? 1ULL << (pick(4) ? n - 1 : pick(n)) : 0; }
        s = rnd() & m; if (!s) s = 1; last.u64[0] = last.u64[1] = prev.u64[0] = prev.u64[1] = 0;
    }
    w128_t generate() {
        u64 t = 0; for (int i = 0; i < n; i++) if (par64(A[i] & s)) t |= 1ULL << i;
        s = t; w128_t c; c.u64[0] = c.u64[1] = 0; for (int i = 0; i < 128; i++) if (par64(O[i] & s)) c.u64[i / 64] |= 1ULL << (i % 64);
        w128_t r, o; for (int e = 0; e < NE; e++) put(r, e, sm + e < NE ? (sm ? get(last, sm + e) : get(c, e)) : get(c, sm + e - NE));
        for (int e = 0; e < NE; e++) put(o, e, e < wm ? get(r, e) : get(prev, e));
        last = c; prev = r; return o;
    }
    void setStartMode(int x) { sm = x; }
    void setWeightMode(int x) { wm = x; prev.u64[0] = prev.u64[1] = 0; }
    int bitSize() const { return n + 2; }
    void add(const TG& o) { s ^= o.s; for (int i = 0; i < 2; i++) { last.u64[i] ^= o.last.u64[i]; prev.u64[i] ^= o.prev.u64[i]; } }
    void setZero() { s = 0; last.u64[0] = last.u64[1] = prev.u64[0] = prev.u64[1] = 0; }
    bool isZero() const { return !s && !last.u64[0] && !last.u64[1] && !prev.u64[0] && !prev.u64[1]; }
    const std::string getParamString() { return "toy"; }
    bool same(const TG& o) const { return s == o.s && sm == o.sm && wm == o.wm && !memcmp(&last, &o.last, 16) && !memcmp(&prev, &o.prev, 16); }
};
typedef std::bitset<MAXT> Col;
static int oracle(const std::vector<w128_t>& seq, int v, int E, bool lsb, int rows) { // dimension of the v leading bits of E elements
    std::vector<Col> basis; std::vector<int> lead; int W = 128 / E, k = 0;
    for (;; k++) {
        for (int e = 0; e < E; e++) for (int j = 0; j < v; j++) {
            int pos = (KIND == 2 || KIND == 4) ? 51 - j : lsb ? j : W - 1 - j; Col c;
            for (int t = 0; t < rows; t++) { const w128_t& w = seq[t + k]; int b = e * W + pos; if ((w.u64[b / 64] >> (b % 64)) & 1) c[t] = 1; }
            for (size_t q = 0; q < basis.size(); q++) if (c[lead[q]]) c ^= basis[q];
            if (c.none()) return k;
            basis.push_back(c); lead.push_back((int)c._Find_first());
        }
    }
}
struct Hush { std::streambuf *a, *b; std::ofstream o; Hush() : a(std::cout.rdbuf()), b(std::cerr.rdbuf()), o("/dev/null") { std::cout.rdbuf(o.rdbuf()); std::cerr.rdbuf(o.rdbuf()); } ~Hush() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
template<class G> static void one(const G& g, int mexp, int dim, bool (*same)(const G&, const G&)) {
    INFO info; info.bitSize = 128; int E, inc; bool lsb = false;
#if KIND == 1 || KIND == 3
    bool m32 = pick(2) == 0; info.bitMode = m32 ? 32 : 64; info.elementNo = m32 ? 4 : 2; E = info.elementNo; inc = m32 ? 1 : 2; lsb = pick(3) == 0; int vmax = m32 ? 32 : 64, top = 4;
#else
    info.elementNo = 2; E = 2; inc = 1; int vmax = 52, top = 2;
#endif
    int len = pick(3) ? 1 + pick(12) : 1 + pick(vmax); std::vector<int> veq(vmax + 2, -77), want(len, INT_MAX); bool over = false; int rows = dim + 140;
    for (int sm = 0; sm < top; sm += inc) {
        std::vector<int> best(len, -1);
        for (int wm = inc; wm <= top; wm += inc) {
            G w(g); w.setStartMode(sm); w.setWeightMode(wm); w.generate(); std::vector<w128_t> seq; for (int t = 0; t < rows + dim + 4; t++) seq.push_back(w.generate());
            for (int v = 1; v <= len; v++) { int k = oracle(seq, v, E, lsb, rows) * E - (E - wm / inc); if (k > mexp / v) over = true; best[v - 1] = std::max(best[v - 1], k); }
        }
        for (int v = 0; v < len; v++) want[v] = std::min(want[v], best[v]);
    }
    G c(g); bool threw = false; int sum = 0;
    try {
        Hush h;
#if KIND == 1 || KIND == 3
        sum = calc_SIMD_equidistribution<w128_t, G>(c, &veq[0], len, info, mexp, lsb);
#else
        sum = calc_dSFMT_equidistribution<w128_t, G>(c, &veq[0], len, info, mexp);
#endif
    } catch (std::logic_error* x) { threw = true; delete x; }
    if (threw && !over) FAIL("%d elements, %d bits%s, %d state bits: exception, but no value exceeds %d/v", E, len, lsb ? " (from the low end)" : "", dim, mexp);
    if (!threw && over) FAIL("%d elements, %d bits%s, %d state bits: a value exceeds %d/v, no exception", E, len, lsb ? " (from the low end)" : "", dim, mexp);
    if (threw) return;
    int total = 0;
    for (int v = 1; v <= len; v++) { total += mexp / v - want[v - 1]; if (veq[v - 1] != want[v - 1]) FAIL("%d elements, %d of %d bits%s, %d state bits: value %d, exact %d", E, v, len, lsb ? " (from the low end)" : "", dim, veq[v - 1], want[v - 1]); }
    if (veq[len] != -77) FAIL("array written beyond %d bits", len);
    if (sum != total) FAIL("sum %d, exact %d", sum, total);
    if (!same(c, g)) FAIL("the given generator is changed");
}
static bool same_toy(const TG& a, const TG& b) { return a.same(b); }
#if KIND == 3
typedef sfmt RG;
#elif KIND == 4
typedef dSFMT RG;
#endif
#if KIND >= 3
static bool same_real(const RG& a, const RG& b) {
    if (a.size != b.size || a.index != b.index || a.start_mode != b.start_mode || a.weight_mode != b.weight_mode || memcmp(&a.previous, &b.previous, 16)) return false;
#if KIND == 4
    if (memcmp(&a.lung, &b.lung, 16)) return false;
#endif
    return !memcmp(a.state, b.state, sizeof(w128_t) * a.size);
}
#endif
#if KIND >= 3
static void modes(const RG& g) { // generate() in a start position and width against the plain output
    RG b(g), w(g); int sm = pick(NE), wm = 1 + pick(NE); b.setStartMode(0); b.setWeightMode(NE); w.setStartMode(sm); w.setWeightMode(wm); w128_t c[3], o, r[3];
    for (int t = 0; t < 3; t++) { c[t] = b.generate(); o = w.generate(); if (t) for (int e = 0; e < NE; e++) put(r[t], e, sm == 0 ? get(c[t], e) : sm + e < NE ? get(c[t - 1], sm + e) : get(c[t], sm + e - NE)); }
    for (int e = 0; e < NE; e++) if (get(o, e) != (e < wm ? get(r[2], e) : get(r[1], e))) FAIL("start position %d, width %d: element %d of the output is wrong", sm, wm, e);
}
#endif
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
#if KIND < 3
        TG g(4 + pick(pick(2) ? 14 : 56)); g.generate(); g.generate(); one<TG>(g, pick(8) ? 4 * g.n + 8 : 1 + pick(2 * g.n), g.n + 128, same_toy);
#elif KIND == 3
        int mexp = 260 + pick(120); sfmt_param p; memset((void*)&p, 0, sizeof p); p.mexp = mexp; p.pos1 = 1; p.sl1 = 1 + pick(31); p.sr1 = 1 + pick(31); p.sl2 = 1 + pick(3); p.sr2 = 1 + pick(3);
        p.msk1 = rnd(); p.msk2 = rnd(); p.msk3 = rnd(); p.msk4 = rnd(); sfmt g(p); for (int i = 0; i < g.size; i++) { g.state[i].u64[0] = rnd(); g.state[i].u64[1] = rnd(); }
        g.generate(); g.generate(); for (int i = 0; i < 40; i++) modes(g); one<sfmt>(g, g.bitSize(), g.bitSize(), same_real);
#else
        dSFMT_param p; memset((void*)&p, 0, sizeof p); p.mexp = 300; p.pos1 = 1; p.sl1 = 1 + pick(51); p.msk1 = rnd() & 0xfffffffffffffULL; p.msk2 = rnd() & 0xfffffffffffffULL; dSFMT g(p);
        for (int i = 0; i < g.size; i++) { g.state[i].u64[0] = rnd() & 0xfffffffffffffULL; g.state[i].u64[1] = rnd() & 0xfffffffffffffULL; } g.lung.u64[0] = rnd(); g.lung.u64[1] = rnd();
        g.generate(); g.generate(); for (int i = 0; i < 40; i++) modes(g); one<dSFMT>(g, g.bitSize(), g.bitSize(), same_real);
#endif
        n++;
    }
    printf("runs %ld\n", n);
}
