// the bundled generators for the replay drivers: GEN 1..11
// view(): the state as words in ring order from the cursor, with the mask of
// the bits that are state ("used") and that the next outputs depend on ("eff")
#ifndef GENS_H
#define GENS_H
#include "rp.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <list>
#include <map>
#include <set>
#include <typeinfo>
#include <functional>
#include <cerrno>
#include <inttypes.h>
#include <unistd.h>
#include <limits.h>
#include <getopt.h>
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/ZZ.h>
#include <NTL/vec_GF2.h>
#include <openssl/sha.h>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/ReducibleGenerator.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/MersenneTwister.hpp>
#include <MTToolBox/MersenneTwister64.hpp>
#include <MTToolBox/Sequential.hpp>
#include <MTToolBox/TestLinearity.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/util.hpp>
#define private public
#define protected public
#define main sample_main
#if GEN == 1
#include <samples/XORSHIFT/xorshift-2.cpp>
#elif GEN == 2
#include <samples/XORSHIFT/xorshift-3.cpp>
#elif GEN == 3
#include <samples/XORSHIFT/xorshift-4.cpp>
#elif GEN == 4
#include <samples/XORSHIFT/xorshift-5.cpp>
#elif GEN == 5
#include <samples/TinyMTDC/tinymt32search.hpp>
#elif GEN == 6
#include <samples/MTDC/mt1.cpp>
#elif GEN == 7
#include <samples/MTDC/mt2.cpp>
#elif GEN == 8
#include <samples/MTGPDC/MTGP32search.hpp>
#elif GEN == 9
#include <samples/RMT/rmt64.hpp>
#elif GEN == 10
#include <samples/sfmtdc/sfmtsearch.hpp>
#elif GEN == 11
#include <samples/dSFMTdc/dSFMTsearch.hpp>
#endif
#undef private
#undef protected
#undef main
using namespace MTToolBox;
struct RndPG : public ParameterGenerator {    // arbitrary draws, logged
    std::vector<uint64_t> log; int n32 = 0, n64 = 0;
    uint32_t getUint32() { uint32_t v = (uint32_t)rndw(32); log.push_back(v); n32++; return v; }
    uint64_t getUint64() { uint64_t v = rndw(64); log.push_back(v); n64++; return v; }
    void seed(uint64_t) {}
};
static uint32_t rev32(uint32_t x) { uint32_t r = 0; for (int i = 0; i < 32; i++) if (x >> i & 1) r |= 1u << (31 - i); return r; }
static uint64_t rev64(uint64_t x) { uint64_t r = 0; for (int i = 0; i < 64; i++) if (x >> i & 1) r |= 1ULL << (63 - i); return r; }
struct O { uint64_t h, l; bool operator==(const O& o) const { return h == o.h && l == o.l; } bool operator!=(const O& o) const { return !(*this == o); }
           O operator^(const O& o) const { return {h ^ o.h, l ^ o.l}; } };
struct W { uint64_t v, used, eff; };
typedef std::vector<W> View;
#if GEN <= 4
typedef XorShift G; typedef uint32_t U;
#elif GEN == 5
typedef tinymt::tinymt32 G; typedef uint32_t U;
#elif GEN == 6
typedef MT19937 G; typedef uint32_t U;
#elif GEN == 7
typedef MT32Search G; typedef uint32_t U;
#elif GEN == 8
typedef mtgp::mtgp32 G; typedef uint32_t U;
#elif GEN == 9
typedef RMT64Search G; typedef uint64_t U;
#elif GEN == 10
typedef MTToolBox::sfmt G; typedef MTToolBox::w128_t U;
#elif GEN == 11
typedef MTToolBox::dSFMT G; typedef MTToolBox::w128_t U;
#endif
#if GEN >= 10
static const int WB = 128;
static O ob(U u) { return {u.u64[1], u.u64[0]}; }
#elif GEN == 9
static const int WB = 64;
static O ob(U u) { return {0, u}; }
#else
static const int WB = 32;
static O ob(U u) { return {0, u}; }
#endif
static O rev(O o) { if (WB == 32) return {0, rev32((uint32_t)o.l)}; if (WB == 64) return {0, rev64(o.l)}; return {rev64(o.l), rev64(o.h)}; }
static O topbits(O o, int n) {
    if (WB < 128) { uint64_t m = n >= WB ? ~0ULL : ~((~0ULL) >> (64 - WB + n)); if (n <= 0) m = 0; return {0, o.l & m & (WB == 32 ? 0xffffffffULL : ~0ULL)}; }
    uint64_t mh = n >= 64 ? ~0ULL : n <= 0 ? 0 : ~(~0ULL >> n), ml = n >= 128 ? ~0ULL : n <= 64 ? 0 : ~(~0ULL >> (n - 64));
    return {o.h & mh, o.l & ml};
}
static std::string str(O o) { char b[64]; snprintf(b, sizeof b, "%016" PRIx64 ".%016" PRIx64, o.h, o.l); return b; }
// ---- random object: size, parameters, output mode
static void set_reverse(G& g, bool r) {
#if GEN == 5 || GEN == 7 || GEN == 8 || GEN == 9
    if (r) g.setReverseOutput(); else g.resetReverseOutput();
#elif GEN == 10
    if (r) g.set_reverse_bit(); else g.reset_reverse_bit();
#endif
}
static bool has_reverse() { return GEN == 5 || GEN == 7 || GEN == 8 || GEN == 9 || GEN == 10; }
static G* blank() { // an object of random size, parameters not yet set up
#if GEN <= 4 || GEN == 6
    return new G((uint32_t)rnd());
#elif GEN == 5
    return new G((uint32_t)rndw(32));
#elif GEN == 7
    static const int m[] = {89, 107, 127, 521, 607, 1279}; return new G(m[rnd() % 6], rnd() % 3 ? (int)(rndw(16)) : -1, (uint32_t)rnd());
#elif GEN == 8
    static const int m[] = {521, 607, 1279, 2203, 3217, 4253, 4423}; return new G(m[rnd() % 7], (uint32_t)rndw(32));
#elif GEN == 9
    static const int m[] = {127, 521, 607, 1279, 61, 89}; return new G(m[rnd() % 6], rnd());
#elif GEN == 10
    static const int m[] = {521, 607, 1279, 2203}; return new G(m[rnd() % 4]);
#elif GEN == 11
    static const int m[] = {521, 607, 1279, 2203}; return new G(m[rnd() % 4]);
#endif
}
static bool FIX_MODES = false;    // keep start mode 0 and full weight
static void params(G& g, ParameterGenerator& p) {
    g.setUpParam(p);
#if GEN == 8
    for (int i = 0; i < 4; i++) g.setTemperingPattern(~0u, (uint32_t)rndw(32), i);
    g.setUpTempering();
#elif GEN == 5
    g.setTemperingPattern(~0u, (uint32_t)rndw(32), 0);
#elif GEN == 7 || GEN == 9
    g.setTemperingPattern(~U(0), (U)rndw(WB), 0); g.setTemperingPattern(~U(0), (U)rndw(WB), 1);
#elif GEN == 10
    if (!FIX_MODES) { g.setStartMode(rnd() % 4); g.setWeightMode(rnd() % 4 + 1); }
#elif GEN == 11
    if (!FIX_MODES) { g.setStartMode(rnd() % 2); g.setWeightMode(rnd() % 2 + 1); }
#endif
}
// ---- state access
static int ringlen(G& g) {
#if GEN <= 5
    return 0;
#elif GEN == 6
    return 624;
#elif GEN == 8
    return g.state_size;
#else
    return g.size;
#endif
}
static int& cursor(G& g) {
#if GEN <= 5
    static int z; z = 0; return z;
#elif GEN == 8
    return g.idx;
#else
    return g.index;
#endif
}
static int nwords(G& g) {
#if GEN <= 5
    return 4;
#elif GEN == 10
    return 2 * g.size + 2;
#elif GEN == 11
    return 2 * g.size + 4;
#else
    return ringlen(g);
#endif
}
static W getw(G& g, int i) {
    const uint64_t M = ~0ULL, M32 = 0xffffffffULL, M52 = 0xfffffffffffffULL; (void)M; (void)M32; (void)M52;
#if GEN <= 4
    return {i == 0 ? g.x : i == 1 ? g.y : i == 2 ? g.z : g.w, M32, M32};
#elif GEN == 5
    return {g.status[i], M32, i == 0 ? 0x7fffffffULL : M32};
#elif GEN <= 9
    int n = ringlen(g), q = (cursor(g) + i) % n;
  #if GEN == 6
    return {g.state[q], M32, i == 1 ? 0x80000000ULL : M32};
  #elif GEN == 7
    { int r = n * 32 - g.mexp; return {g.state[q], M32, i == 1 % n ? (M32 << r & M32) : M32}; }
  #elif GEN == 8
    { int r = n * 32 - g.param.mexp; return {g.state[q], M32, i == 1 % n ? (M32 << r & M32) : M32}; }
  #else
    return {g.state[q], M, M};
  #endif
#else
    int n = g.size;
    if (i < 2 * n) { w128_t& s = g.state[(g.index + i / 2) % n]; return {s.u64[i & 1], GEN == 11 ? M52 : M, GEN == 11 ? M52 : M}; }
    i -= 2 * n;
  #if GEN == 10
    { int wm = g.weight_mode; uint64_t m0 = wm == 1 ? M32 << 32 : 0, m1 = wm == 4 ? 0 : wm == 3 ? M32 << 32 : M; return {g.previous.u64[i], M, i ? m1 : m0}; }
  #else
    if (i < 2) return {g.lung.u64[i], M, M};
    return {g.previous.u64[i - 2], M, g.weight_mode == 2 ? 0 : i - 2 ? M : 0};
  #endif
#endif
}
static void setw_(G& g, int i, uint64_t v) {
#if GEN <= 4
    (i == 0 ? g.x : i == 1 ? g.y : i == 2 ? g.z : g.w) = (uint32_t)v;
#elif GEN == 5
    g.status[i] = (uint32_t)v;
#elif GEN <= 9
    int n = ringlen(g); g.state[(cursor(g) + i) % n] = (U)v;
#else
    int n = g.size;
    if (i < 2 * n) { g.state[(g.index + i / 2) % n].u64[i & 1] = v; return; }
    i -= 2 * n;
  #if GEN == 10
    g.previous.u64[i] = v;
  #else
    if (i < 2) g.lung.u64[i] = v; else g.previous.u64[i - 2] = v;
  #endif
#endif
}
static View view(G& g) { View v; for (int i = 0, n = nwords(g); i < n; i++) v.push_back(getw(g, i)); return v; }
static void random_state(G& g) {
    if (ringlen(g)) cursor(g) = rnd() % ringlen(g);
    int mode = rnd() % 3;
    for (int i = 0, n = nwords(g); i < n; i++) { uint64_t v = mode == 0 ? rnd() : mode == 1 ? rndw(64) : rnd() % 8 ? 0 : rndw(64); setw_(g, i, v & getw(g, i).used); }
}
static void seed_any(G& g, uint64_t s) {
#if GEN >= 10
    w128_t w; w.u64[0] = s; w.u64[1] = s * 0x9e3779b97f4a7c15ULL; g.seed(w);
#else
    g.seed((U)s);
#endif
}
static G* make_params() { G* g = blank(); RndPG p; params(*g, p); return g; }
static G* make() { G* g = make_params(); random_state(*g); if (has_reverse()) set_reverse(*g, rnd() & 1); return g; }
static G* copy(G& g) { return dynamic_cast<G*>(g.clone()); }
static bool same(const View& a, const View& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); i++) if (a[i].v != b[i].v) return false; return true; }
static std::string show(const View& v) {
    std::string s = "["; char b[40]; for (size_t i = 0; i < v.size() && i < 40; i++) if (v[i].v) { snprintf(b, sizeof b, " %zu:%" PRIx64, i, v[i].v); s += b; if (s.size() > 300) { s += " .."; break; } } return s + " ]";
}
static const char* GNAME[] = {"", "xorshift-2", "xorshift-3", "xorshift-4", "xorshift-5", "tinymt32", "MT19937(mt1)", "MT32Search(mt2)", "mtgp32", "RMT64Search", "sfmt", "dSFMT"};
#define GN GNAME[GEN]
static std::string pstr(G& g) { return g.getHeaderString() + " = " + g.getParamString(); }
#endif
