// replay driver for C24: the fixed point of dSFMT against independent linear algebra
#include "rp.h"
#include <iostream>
#include <sstream>
#include <fstream>
#include <vector>
#include <stdexcept>
#include <cinttypes>
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/ZZ.h>
#define private public
#define protected public
#include <samples/dSFMTdc/calc_fixpoint.cpp>
#undef private
#undef protected
typedef uint64_t u64; typedef std::vector<u64> Vec_;   // s words (2 per ring entry, from the cursor), then lung
struct Mute { std::streambuf *o, *e; std::ofstream z; Mute() : z("/dev/null") { o = std::cout.rdbuf(z.rdbuf()); e = std::cerr.rdbuf(z.rdbuf()); } ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
static int SZ, POS, SL; static u64 M1, M2; static const u64 HI = 0x3ff0000000000000ULL, LO = 0x000fffffffffffffULL;
// one step of the recursion, the state listed from the cursor (entry 0 is the newest word)
static Vec_ step(const Vec_& x) {
    Vec_ y(x.size()); u64 t0 = x[2], t1 = x[3]; int b = (1 + POS) % SZ; u64 L0 = x[2 * SZ], L1 = x[2 * SZ + 1];
    u64 n0 = (t0 << SL) ^ (L1 >> 32) ^ (L1 << 32) ^ x[2 * b], n1 = (t1 << SL) ^ (L0 >> 32) ^ (L0 << 32) ^ x[2 * b + 1];
    for (int i = 1; i < SZ; i++) { int s = (i + 1) % SZ; y[2 * i] = x[2 * s]; y[2 * i + 1] = x[2 * s + 1]; }
    y[0] = (n0 >> 12) ^ (n0 & M1) ^ t0; y[1] = (n1 >> 12) ^ (n1 & M2) ^ t1; y[2 * SZ] = n0; y[2 * SZ + 1] = n1; return y;
}
static void addto(Vec_& a, const Vec_& b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; }
static Vec_ act(const NTL::GF2X& f, Vec_ x) { Vec_ r(x.size(), 0); for (long i = 0; i <= NTL::deg(f); i++) { if (NTL::IsOne(NTL::coeff(f, i))) addto(r, x); x = step(x); } return r; }
static bool zero(const Vec_& a) { for (u64 x : a) if (x) return false; return true; }
static Vec_ view(const MTToolBox::dSFMT& g) { Vec_ v; for (int i = 0; i < g.size; i++) for (int j = 0; j < 2; j++) v.push_back(g.state[(g.index + i) % g.size].u64[j]); v.push_back(g.lung.u64[0]); v.push_back(g.lung.u64[1]); return v; }
static NTL::GF2X minp(Vec_ x, const Vec_& form, int n) { NTL::vec_GF2 s; s.SetLength(2 * n); for (int i = 0; i < 2 * n; i++) { x = step(x); u64 p = 0; for (size_t k = 0; k < x.size(); k++) p ^= x[k] & form[k]; s[i] = __builtin_popcountll(p) & 1; } NTL::GF2X p; NTL::MinPolySeq(p, s, n); return p; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; NTL::SetSeed(NTL::to_ZZ((long)(rnd() >> 2))); long runs = 0, thrown = 0;
    while (time_left()) {
        SZ = 3 + pick(3); int mexp = 128 + 104 * (SZ - 1) + (pick(2) ? pick(100) : 1); if ((mexp - 128) / 104 + 1 != SZ) continue;
        MTToolBox::dSFMT_param P; P.mexp = mexp; P.pos1 = POS = 1 + pick(SZ - 2); P.sl1 = SL = 1 + pick(51); P.msk1 = M1 = (rnd() | rnd()) & LO; P.msk2 = M2 = (rnd() | rnd()) & LO;
        MTToolBox::dSFMT g(P); int n = g.bitSize();
        if (pick(2)) { MTToolBox::w128_t w; w.u64[0] = rnd(); w.u64[1] = rnd(); g.seed(w); for (int i = pick(5); i > 0; i--) g.generate(); }
        char id[200]; snprintf(id, sizeof id, "size %d pos1 %d sl1 %d msk1 %013" PRIx64 " msk2 %013" PRIx64, SZ, POS, SL, M1, M2);
        // setConst leaves the constant term of the recursion with prefix
        Vec_ H(2 * SZ + 2, HI); H[2 * SZ] = H[2 * SZ + 1] = 0; Vec_ con = step(H); addto(con, H);
        for (int k = 0; k < 3; k++) { Vec_ y(2 * SZ + 2); for (int i = 0; i < 2 * SZ; i++) y[i] = rnd() & LO; y[2 * SZ] = rnd(); y[2 * SZ + 1] = rnd(); Vec_ a = y; addto(a, H); a = step(a); Vec_ b = step(y); addto(b, con); addto(b, H); if (a != b) FAIL("%s: oracle: the recursion with prefix is not affine", id); }
        { MTToolBox::dSFMT t(g); t.setConst(); if (view(t) != con) FAIL("%s: setConst does not leave the constant term of the recursion", id); if (t.prefix) FAIL("%s: setConst leaves a prefix", id); }
        // minimal polynomial of the step on the whole space (random functionals and states, then checked)
        NTL::GF2X all(0, 1); for (int k = 0; k < 6; k++) { Vec_ y(2 * SZ + 2), f(2 * SZ + 2); for (int i = 0; i < 2 * SZ; i++) { y[i] = rnd() & LO; f[i] = rnd(); } y[2 * SZ] = rnd(); y[2 * SZ + 1] = rnd(); f[2 * SZ] = rnd(); f[2 * SZ + 1] = rnd(); NTL::GF2X m = minp(y, f, n); all = all / NTL::GCD(all, m) * m; }
        bool kills = true; for (int b = 0; b < n && kills; b++) { Vec_ y(2 * SZ + 2, 0); if (b < 104 * SZ) y[b / 52] = 1ULL << (b % 52); else y[2 * SZ + (b - 104 * SZ) / 64] = 1ULL << ((b - 104 * SZ) % 64); kills = zero(act(all, y)); }
        if (!kills) continue;
        NTL::vec_pair_GF2X_long fs; NTL::CanZass(fs, all);
        for (int rep = 0; rep < 3 && time_left(); rep++) {
            NTL::GF2X p(0, 1), x1(1, 1); NTL::SetCoeff(x1, 0); int mode = pick(4);
            if (mode == 0) p = fs[pick((int)fs.length())].a; else { long best = 0; for (long i = 0; i < fs.length(); i++) { if (NTL::deg(fs[i].a) > NTL::deg(fs[best].a)) best = i; } for (long j = 0; j < fs[best].b; j++) p *= fs[best].a; if (mode > 1) for (long i = 0; i < fs.length(); i++) if (i != best && pick(3) == 0 && fs[i].a != x1) for (long j = 0; j < fs[i].b; j++) p *= fs[i].a; }
            NTL::GF2X Q = all / p; bool ok = NTL::IsOne(NTL::GCD(p, Q)) && NTL::IsOne(NTL::GCD(p, x1)); bool ex = false; MTToolBox::w128_t fix; Vec_ before = view(g);
            try { fix = calc_fixpoint(g, p, Q); } catch (std::logic_error *) { ex = true; } catch (std::exception&) { ex = true; }
            if (view(g) != before) FAIL("%s: calc_fixpoint changes the generator", id);
            if (ex != !ok) FAIL("%s: degree %ld of %ld: %s", id, NTL::deg(p), NTL::deg(all), ex ? "reports failure although the factors are coprime" : "no failure reported although a factor is not coprime");
            if (ex) { thrown++; continue; }
            // the projection of the constant and the fixed point of the projected recursion
            NTL::GF2X qi; if (NTL::deg(p) < 1) continue; NTL::InvMod(qi, Q % p, p); NTL::GF2X e = qi * Q; Vec_ pc = act(e, con);
            if (!zero(act(p, pc))) FAIL("%s: oracle: projection", id);
            NTL::GF2X r = (p + NTL::GF2X(0, 1)) / x1; Vec_ y = act(r, pc), t = step(y); addto(t, pc); if (t != y) FAIL("%s: oracle: fixed point", id);
            if (fix.u64[0] != y[2 * SZ] || fix.u64[1] != y[2 * SZ + 1]) FAIL("%s: degree %ld of %ld: returned %016" PRIx64 " %016" PRIx64 ", the fixed point has lung %016" PRIx64 " %016" PRIx64, id, NTL::deg(p), NTL::deg(all), fix.u64[0], fix.u64[1], y[2 * SZ], y[2 * SZ + 1]);
            runs++;
        }
    }
    printf("runs %ld thrown %ld\n", runs, thrown);
}
