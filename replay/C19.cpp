// replay driver for C19: the parity search on random reducible generators
// VARIANT: -DUW=32
// VARIANT: -DUW=64
// VARIANT: -DUW=128
#if UW == 128
#include <cstdint>
#include <cinttypes>
#include <samples/sfmtdc/w128.hpp>
#endif
#include "toy.h"
#include <bitset>
#if UW == 32
typedef uint32_t W_;
static bool wb(W_ x, int i) { return (x >> i) & 1; } static void sb(W_& x, int i) { x |= (W_)1 << i; }
#elif UW == 64
typedef uint64_t W_;
static bool wb(W_ x, int i) { return (x >> i) & 1; } static void sb(W_& x, int i) { x |= (W_)1 << i; }
#else
typedef w128_t W_;
static bool wb(const W_& x, int i) { return (x.u64[i / 64] >> (i % 64)) & 1; } static void sb(W_& x, int i) { x.u64[i / 64] |= 1ULL << (i % 64); }
#endif
static W_ wz() { W_ x; memset(&x, 0, sizeof x); return x; }
typedef std::bitset<UW> Bits;
static Bits bs(const W_& x) { Bits b; for (int i = 0; i < UW; i++) b[i] = wb(x, i); return b; }
struct BSpan { std::vector<Bits> piv; std::vector<bool> has; int dim; BSpan() : piv(UW), has(UW, false), dim(0) {}
    bool ins(Bits x) { for (int i = 0; i < UW; i++) if (x[i]) { if (has[i]) x ^= piv[i]; else { piv[i] = x; has[i] = true; dim++; return true; } } return false; } };
static std::vector<u64> DIED; static std::vector<int> UNITS; static bool LOGGING = false; static long STEPS = 0;
struct PT; static std::set<PT*> LIVE; static int ENOUGH = 0; static bool SURPLUS = false; static int words_held(PT*);
struct Stop {};
struct PT : public ReducibleGenerator<W_> {
    int n, mexp; std::vector<u64> A, O, P; u64 s; W_ parity; int sets; bool cl;
    PT(int n_, int m_) : n(n_), mexp(m_), A(n_), O(UW), P(UW), s(0), parity(wz()), sets(0), cl(false) { LIVE.insert(this); }
    PT(const PT& o) : ReducibleGenerator<W_>(o), n(o.n), mexp(o.mexp), A(o.A), O(o.O), P(o.P), s(o.s), parity(o.parity), sets(o.sets), cl(false) { LIVE.insert(this); }
    ~PT() { LIVE.erase(this); if (LOGGING && !cl) DIED.push_back(s); }
    W_ word(const std::vector<u64>& O_, u64 s_) const { W_ r = wz(); for (int i = 0; i < UW; i++) if (par64(O_[i] & s_)) sb(r, i); return r; }
    W_ generate() { if (++STEPS > 3000000) throw Stop(); s = mulA(A, s); return word(O, s); }
    W_ generate(int) { return generate(); }
    void seed(W_) { s = 1; }
    int bitSize() const { return n; }
    void setUpParam(ParameterGenerator&) {}
    const std::string getHeaderString() { return ""; }
    const std::string getParamString() { return ""; }
    EquidistributionCalculatable<W_>* clone() const { PT *p = new PT(*this); p->cl = true; return p; }
    void add(EquidistributionCalculatable<W_>& t) { s ^= dynamic_cast<PT&>(t).s; }
    void setZero() { s = 0; }
    bool isZero() const { return s == 0; }
    void setOneBit(int b) { if (b < 0 || b >= n) FAIL("setOneBit(%d) for a state of %d bits", b, n); if (LOGGING) { if (words_held(this) >= ENOUGH) SURPLUS = true; UNITS.push_back(b); } s = 1ULL << b; }
    W_ getParityValue() const { return word(P, s); }
    void setParityValue(W_ p) { parity = p; sets++; }
    int getMexp() const { return mexp; }
};
static PT *SELF; static int words_held(PT *me) { BSpan s; int k = 0; for (PT *p : LIVE) if (p != me && p != SELF && !p->cl) { k++; if (p->s) s.ins(bs(p->word(p->P, p->s))); } return k == UW ? s.dim : -1; }
static NTL::GF2X rirr(int d) { NTL::GF2X p; do { NTL::random(p, d); NTL::SetCoeff(p, d); } while (!irr(p)); return p; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; NTL::SetSeed(NTL::to_ZZ((long)(rnd() >> 2))); long runs = 0, thrown = 0, full = 0, words = 0;
    while (time_left()) {
        int m = 2 + pick(18), r = 1 + pick(pick(3) ? 10 : 40); if (m + r > 60) continue; int n = m + r;
        NTL::GF2X f = rirr(m), h(0, 1); int room = r;
        while (room > 0) { int d = 1 + pick(std::min(room, 12)); NTL::GF2X g = d == 1 ? (NTL::GF2X(1, 1) + (pick(2) ? NTL::GF2X(0, 1) : NTL::GF2X())) : pick(2) ? rirr(d) : NTL::GF2X(); if (NTL::deg(g) != d) { NTL::random(g, d); NTL::SetCoeff(g, d); } if (!NTL::IsOne(NTL::GCD(g, f))) continue; h *= g; room -= d; }
        // block companion matrices of f and h (or of the factors of h), conjugated
        PT g(n, m); std::vector<u64> M(n, 0);
        auto comp = [&](int o, const NTL::GF2X& p) { int d = NTL::deg(p); for (int i = 0; i < d; i++) { if (i) M[o + i] |= 1ULL << (o + i - 1); if (NTL::IsOne(NTL::coeff(p, i))) M[o + i] |= 1ULL << (o + d - 1); } };
        comp(0, f);
        if (pick(3)) comp(m, h); else { NTL::vec_pair_GF2X_long fs; NTL::CanZass(fs, h); int o = m; for (long i = 0; i < fs.length(); i++) for (long j = 0; j < fs[i].b; j++) { comp(o, fs[i].a); o += NTL::deg(fs[i].a); } }
        if (pick(5)) for (int k = 0; k < 3 * n; k++) { int a = pick(n), b = pick(n); if (a == b) continue; M[a] ^= M[b]; for (int i = 0; i < n; i++) if ((M[i] >> a) & 1) M[i] ^= 1ULL << b; } // E M E^-1, E: row a += row b
        g.A = M; u64 mk = (1ULL << n) - 1; int shape = pick(5);
        for (int i = 0; i < UW; i++) { g.O[i] = rnd() & mk; g.P[i] = shape == 0 ? 0 : shape == 1 ? rnd() & rnd() & rnd() & mk : rnd() & mk; if (shape == 2 && pick(2)) g.P[i] = 0; if (shape == 3 && i) g.P[i] = pick(3) ? g.P[rnd() % i] : 0; }
        if (shape == 0) for (int i = 0; i < n && i < UW; i++) g.P[(i * 7) % UW] |= 1ULL << i;
        // the subspace annihilated by h is f(A) of everything
        Span V; std::vector<u64> VB; for (int b = 0; b < n; b++) { u64 x = 1ULL << b, y = 0; for (long i = 0; i <= NTL::deg(f); i++) { if (NTL::IsOne(NTL::coeff(f, i))) y ^= x; x = mulA(g.A, x); } if (V.ins(y)) VB.push_back(y); }
        if ((int)VB.size() != r) continue;
        Span ob; { std::vector<u64> x = VB; for (int i = 0; i < n; i++) { for (int k = 0; k < UW; k++) { u64 row = 0; for (int j = 0; j < r; j++) if (par64(g.P[k] & x[j])) row |= 1ULL << j; ob.ins(row); } for (int j = 0; j < r; j++) x[j] = mulA(g.A, x[j]); } }
        if ((int)ob.b.size() != r) continue;      // a non-zero state with zero words only: the search need not end
        g.s = rnd() & mk; u64 s0 = g.s;
        LIVE.clear(); SELF = &g; ENOUGH = r; SURPLUS = false; DIED.clear(); UNITS.clear(); STEPS = 0; bool ex = false, cut = false; W_ par = wz();
        { AlgorithmCalculateParity<W_, PT> al; LOGGING = true; try { par = al.searchParity(g, f); } catch (const char*) { ex = true; } catch (std::exception&) { ex = true; } catch (Stop&) { cut = true; } LOGGING = false; }
        if (cut) FAIL("state size %d, exponent %d: more than 3000000 steps", n, m);
        std::string id = "state size " + std::to_string(n) + " exponent " + std::to_string(m) + " factor " + ps(f) + " cofactor " + ps(h); const char *I_ = id.c_str();
        if (g.s != s0) FAIL("%s: the state of the generator changed", I_);
        for (size_t i = 0; i < UNITS.size(); i++) if (UNITS[i] != (int)i) FAIL("%s: unit state %d tried at position %d", I_, UNITS[i], (int)i);
        if (SURPLUS) FAIL("%s: a unit state is tried although %d independent words are collected", I_, r);
        BSpan all; for (size_t i = 0; i < VB.size(); i++) all.ins(bs(g.word(g.P, VB[i])));
        BSpan got; std::vector<Bits> col; Bits lows; bool known = DIED.size() == UW;
        if (known) for (size_t i = 0; i < DIED.size(); i++) { if (!DIED[i]) continue; Span t = V; if (t.ins(DIED[i])) FAIL("%s: a collected state is not annihilated", I_); Bits w = bs(g.word(g.P, DIED[i])); if (w.none()) continue; col.push_back(w); int l = 0; while (!w[l]) l++; if (lows[l]) FAIL("%s: two collected words have the same lowest one bit %d", I_, l); lows[l] = true; got.ins(w); }
        if (known) { words += col.size(); if ((int)col.size() > r) FAIL("%s: %d words collected, %d wanted", I_, (int)col.size(), r); if ((int)col.size() < r && (int)UNITS.size() != n) FAIL("%s: only %d of %d words collected, %d of %d unit states tried", I_, (int)col.size(), r, (int)UNITS.size(), n); }
        if (ex) { thrown++; if (g.sets) FAIL("%s: parity stored although none was found", I_); if (known && got.dim < UW) FAIL("%s: none found, but the %d collected words leave %d dimensions", I_, got.dim, UW - got.dim); }
        else {
            Bits p = bs(par); if (p.none()) FAIL("%s: the parity vector is zero", I_);
            if (g.sets < 1 || bs(g.parity) != p) FAIL("%s: the parity vector returned is not the one stored", I_);
            for (size_t i = 0; i < col.size(); i++) if ((p & col[i]).count() & 1) FAIL("%s: the parity vector %s is not orthogonal to the collected word %s", I_, p.to_string().c_str(), col[i].to_string().c_str());
            if (known && got.dim == UW) FAIL("%s: the words span everything, but a vector is returned", I_);
            if (known && (int)col.size() == r) { full++; for (size_t i = 0; i < VB.size(); i++) if ((p & bs(g.word(g.P, VB[i]))).count() & 1) FAIL("%s: a state annihilated by the factor passes the parity check", I_); }
        }
        runs++;
    }
    printf("runs %ld thrown %ld complete %ld words %ld\n", runs, thrown, full, words);
}
