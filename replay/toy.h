// Toy<U>: a small GF(2)-linear generator (random matrices, state <= 62 bits)
// implementing every generator interface, with brute-force oracles for the
// algorithms.  The algorithms under test are the real ones from /repo.
#ifndef TOY_H
#define TOY_H
#include "rp.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <map>
#include <set>
#include <algorithm>
#include <memory>
#include <cinttypes>
#include <stdexcept>
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/GF2XVec.h>
#include <NTL/mat_GF2.h>
#include <NTL/ZZ.h>
#define private public
#define protected public
#include <MTToolBox/util.hpp>
#include <MTToolBox/period.hpp>
#include <MTToolBox/ParameterGenerator.hpp>
#include <MTToolBox/ReducibleTemperingCalculatable.hpp>
#include <MTToolBox/AlgorithmTempering.hpp>
#include <MTToolBox/AlgorithmPrimitivity.hpp>
#include <MTToolBox/AlgorithmRecursionSearch.hpp>
#include <MTToolBox/AlgorithmReducibleRecursionSearch.hpp>
#include <MTToolBox/AlgorithmEquidistribution.hpp>
#include <MTToolBox/AlgorithmReducibleEquidistribution.hpp>
#include <MTToolBox/AlgorithmPartialBitPattern.hpp>
#include <MTToolBox/AlgorithmBestBits.hpp>
#include <MTToolBox/AlgorithmCalculateParity.hpp>
#include <MTToolBox/AlgorithmRecursionAndTempering.hpp>
#include <MTToolBox/AlgorithmReducibleRT.hpp>
#include <MTToolBox/TestLinearity.hpp>
#undef private
#undef protected
using namespace MTToolBox;
typedef uint64_t u64;
static inline int par64(u64 x) { return __builtin_popcountll(x) & 1; }
static inline u64 rndbits(int n) { return rnd() & (n >= 64 ? ~0ULL : (1ULL << n) - 1); }

// counting parameter source: delivers a fixed pseudo random list, or a given one
struct PG : public ParameterGenerator {
    std::vector<u64> list; u64 salt; long pos;
    PG(u64 s = 0) : salt(s), pos(0) {}
    u64 at(long i) const { if (i < (long)list.size()) return list[i]; u64 z = salt + (u64)(i + 1) * 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    uint32_t getUint32() { return (uint32_t)at(pos++); }
    uint64_t getUint64() { return at(pos++); }
    void seed(uint64_t v) { salt = v; pos = 0; }
};

struct Lin { // n x n matrix as rows, and w output rows
    int n, w; std::vector<u64> A, O;
};
static u64 mulA(const std::vector<u64>& A, u64 s) { u64 r = 0; for (size_t i = 0; i < A.size(); i++) if (par64(A[i] & s)) r |= 1ULL << i; return r; }
struct Log { long gen, seedc, setup, add, setzero, clone, settemp, setupt, setrev, resetrev, clones_live; };
static Log TL;

template<typename U> struct WB { static const int W = sizeof(U) * 8; };

template<typename U>
class Toy : public ReducibleTemperingCalculatable<U> {
public:
    enum { W = sizeof(U) * 8 };
    int n, mexp; std::vector<u64> A, O;    // O[r]: mask of output bit r (r = 0 is the MSB)
    u64 s; bool rev; U parity; u64 id;
    int ntemp; U pat[8], live[8]; int sh[8]; bool lazy, rot;   // lazy: patterns take effect with setUpTempering only
    long draws; int shape;
    std::vector<std::pair<int, U> > hist;
    Toy(int n_, u64 seed, int mexp_ = 0, int shape_ = 0) : n(n_), mexp(mexp_ ? mexp_ : n_), s(0), rev(false), parity(0), id(seed), ntemp(0), lazy(false), rot(false), draws(0), shape(shape_) {
        for (int i = 0; i < 8; i++) { pat[i] = live[i] = 0; sh[i] = 1 + 3 * i; }
        build(seed);
    }
    ~Toy() { }
    static u64 mixx(u64& x) { x += 0x9e3779b97f4a7c15ULL; u64 z = x; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    u64 m() const { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
    void build(u64 x) {
        id = x; A.assign(n, 0); O.assign(W, 0);
        if (shape == 1) {  // companion matrix of a random polynomial, sparse outputs
            u64 c = mixx(x) | 1;
            for (int i = 0; i < n; i++) { if (i) A[i] |= 1ULL << (i - 1); if ((c >> i) & 1) A[i] |= 1ULL << (n - 1); }
            for (int r = 0; r < W; r++) { O[r] = 1ULL << (mixx(x) % n); if (mixx(x) % 3 == 0) O[r] |= 1ULL << (mixx(x) % n); }
        } else {
            for (int i = 0; i < n; i++) { u64 y = mixx(x); A[i] = (shape == 2 ? y & mixx(x) & mixx(x) : y) & m(); }
            for (int r = 0; r < W; r++) O[r] = mixx(x) & m();
            if (shape == 3) for (int r = 0; r < W; r++) { u64 y = mixx(x); if (y % 3 == 0) O[r] = 0; else if (y % 3 == 1 && r) O[r] = O[(y >> 8) % r]; }
        }
    }
    U raw() const { U r = 0; for (int i = 0; i < W; i++) if (par64(O[i] & s)) r |= (U)1 << (W - 1 - i);
        for (int k = 0; k < ntemp; k++) { if (rot) { U x = r & live[k]; r ^= (U)(x >> sh[k]) ^ (U)(x << (W - sh[k])); } else r ^= (U)(r >> sh[k]) & live[k]; }
        return r; }
    static U revb(U x) { U r = 0; for (int i = 0; i < W; i++) if ((x >> i) & 1) r |= (U)1 << (W - 1 - i); return r; }
    U out() const { U r = raw(); return rev ? revb(r) : r; }
    U generate() { s = mulA(A, s); draws++; return out(); }
    U generate(int v) { U r = generate(); return v >= W ? r : r & (U)(~(U)0 << (W - v)); }
    void seed(U v) { u64 x = (u64)v * 0x2545F4914F6CDD1DULL + 77; s = mixx(x) & m(); if (!s) s = 1; }
    int bitSize() const { return n; }
    void setUpParam(ParameterGenerator& g) { build(g.getUint64()); }
    const std::string getHeaderString() { return "id"; }
    const std::string getParamString() { std::stringstream ss; ss << std::hex << id; for (int i = 0; i < ntemp; i++) ss << "," << (u64)pat[i]; return ss.str(); }
    EquidistributionCalculatable<U>* clone() const { return new Toy<U>(*this); }
    void add(EquidistributionCalculatable<U>& that) { s ^= dynamic_cast<Toy<U>&>(that).s; }
    void setZero() { s = 0; }
    bool isZero() const { return s == 0; }
    void setTemperingPattern(U mask, U pattern, int index) { pat[index] = (pat[index] & ~mask) | (pattern & mask); if (!lazy) live[index] = pat[index]; hist.push_back(std::make_pair(index, mask)); }
    void setUpTempering() { for (int i = 0; i < 8; i++) live[i] = pat[i]; }
    void setReverseOutput() { rev = true; }
    void resetReverseOutput() { rev = false; }
    bool isReverseOutput() { return rev; }
    void setOneBit(int b) { s = 1ULL << b; }
    U getParityValue() const { return (U)s; }
    void setParityValue(U p) { parity = p; }
    int getMexp() const { return mexp; }
};
// ---- oracles
static int bm(const std::vector<int>& b, std::vector<int>& C) { // Berlekamp-Massey: connection polynomial, returns the linear complexity
    size_t N = b.size(); C.assign(N + 1, 0); std::vector<int> B(N + 1, 0), Tt; C[0] = B[0] = 1; int L = 0, mm = 1;
    for (size_t i = 0; i < N; i++) {
        int d = b[i]; for (int j = 1; j <= L; j++) d ^= C[j] & b[i - j];
        if (!d) { mm++; continue; }
        Tt = C; for (size_t j = 0; j + mm <= N; j++) C[j + mm] ^= B[j];
        if (2 * L <= (int)i) { L = (int)i + 1 - L; B = Tt; mm = 1; } else mm++;
    }
    return L;
}
static NTL::GF2X bmpoly(const std::vector<int>& b) { std::vector<int> C; int L = bm(b, C); NTL::GF2X p; for (int j = 0; j <= L; j++) if (C[j]) NTL::SetCoeff(p, L - j); return p; }
template<typename U> static NTL::GF2X oracle_minpoly(Toy<U> g, int pos, int n) { std::vector<int> b; for (int i = 0; i < 2 * n; i++) b.push_back((int)((g.generate() >> pos) & 1)); return bmpoly(b); }
// row space helpers: echelon basis of vectors
struct Span { std::vector<u64> b; bool ins(u64 x) { for (size_t i = 0; i < b.size(); i++) { u64 t = b[i]; if ((x ^ t) < x) x ^= t; } if (!x) return false; b.push_back(x); for (size_t i = b.size(); i-- > 1 && b[i] > b[i - 1];) std::swap(b[i], b[i - 1]); return true; } };
// exact dimension of equidistribution over the span of the orbit of g's state, top v bits
template<typename U> static int oracle_k(const Toy<U>& g0, int v, int *dim = 0) {
    Span V; Toy<U> g(g0); std::vector<u64> basis; 
    for (int i = 0; i <= g.n; i++) { if (V.ins(g.s)) basis.push_back(g.s); else break; g.s = mulA(g.A, g.s); }
    int d = (int)basis.size(); if (dim) *dim = d;
    if (!d) return 0;
    std::vector<Toy<U> > gs; for (int i = 0; i < d; i++) { gs.push_back(g0); gs.back().s = basis[i]; }
    Span R; int k = 0;
    for (;;) {
        if ((k + 1) * v > d) return k;
        std::vector<u64> row(v, 0);
        for (int i = 0; i < d; i++) { U o = gs[i].generate(); for (int j = 0; j < v; j++) if ((o >> (WB<U>::W - 1 - j)) & 1) row[j] |= 1ULL << i; }
        for (int j = 0; j < v; j++) if (!R.ins(row[j])) return k;
        k++;
    }
}
template<typename U> static int oracle_delta(const Toy<U>& g, int len, int size) { int s = 0; for (int v = 1; v <= len; v++) s += size / v - oracle_k(g, v); return s; }
static bool irr(const NTL::GF2X& p) { // Ben-Or by hand, independent of IterIrredTest
    long n = NTL::deg(p); if (n <= 0) return false; if (n == 1) return true;
    NTL::GF2X x(1, 1), t = x % p, g;
    for (long i = 1; i <= n / 2; i++) { t = NTL::SqrMod(t, p); g = NTL::GCD(t + x, p); if (!NTL::IsOne(g)) return false; }
    return true;
}
static std::string ps(const NTL::GF2X& p) { std::string s; for (long i = NTL::deg(p); i >= 0; i--) s += NTL::IsOne(NTL::coeff(p, i)) ? '1' : '0'; return s.empty() ? "0" : s; }
struct Mute { std::streambuf *o, *e; std::ofstream z; Mute() : z("/dev/null") { o = std::cout.rdbuf(z.rdbuf()); e = std::cerr.rdbuf(z.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
#endif
