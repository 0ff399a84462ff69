// replay driver for C09: primitivity decisions
#include "toy.h"
static const int ME[] = {2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011, 24036583, 25964951};
static bool me(uint32_t d) { for (int x : ME) if ((uint32_t)x == d) return true; return false; }
static std::vector<long> fact(long m) { std::vector<long> r; for (long d = 2; d * d <= m; d++) if (m % d == 0) { r.push_back(d); while (m % d == 0) m /= d; } if (m > 1) r.push_back(m); return r; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0, acc = 0;
    for (uint32_t d = 0; d < 26000000; d++) if (isMexp(d) != me(d)) FAIL("isMexp(%u) = %d", d, (int)isMexp(d));
    for (int i = 0; i < 2000000; i++) { uint32_t d = (uint32_t)rndw(32); if (isMexp(d) != me(d)) FAIL("isMexp(%u) = %d", d, (int)isMexp(d)); }
    for (uint32_t d : {0x80000000u, 0xffffffffu, 0xfffffffeu, 0x80000002u}) if (isMexp(d)) FAIL("isMexp(%u) = 1", d);
    // published tables: an element of full order raised to each listed prime loses exactly that prime
    static const char ** const TB[] = {prime_factors2_128_1, prime_factors2_160_1, prime_factors2_192_1, prime_factors2_224_1, prime_factors2_256_1, prime_factors2_320_1, prime_factors2_384_1};
    static const int TN[] = {128, 160, 192, 224, 256, 320, 384};
    for (int k = 0; k < 7; k++) {
        int d = TN[k]; std::vector<NTL::ZZ> f; for (int i = 0; TB[k][i]; i++) f.push_back(NTL::conv<NTL::ZZ>(TB[k][i]));
        NTL::Vec<NTL::ZZ> z; z.SetLength(f.size()); for (size_t i = 0; i < f.size(); i++) z[i] = f[i];
        NTL::ZZ per = NTL::power(NTL::to_ZZ(2), d) - 1; NTL::GF2X p, x; AlgorithmPrimitivity o(TB[k]);
        auto full = [&](const NTL::GF2X& g) { for (auto& r : f) { NTL::GF2X y; NTL::PowerXMod(y, per / r, g); if (NTL::IsOne(y)) return false; } return true; };
        do NTL::BuildRandomIrred(p, NTL::BuildSparseIrred_GF2X(d)); while (!full(p));
        for (int i = -1; i < (int)f.size(); i++) {
            NTL::GF2X g = p; if (i >= 0) { NTL::PowerXMod(x, f[i], p); NTL::MinPolyMod(g, x, p); } if (NTL::deg(g) != d) continue; bool w = i < 0;
            if (isPrime(g, d, z) != w) FAIL("isPrime(%s, %d, all factors) = %d: the order is (2^%d-1)/%s", ps(g).c_str(), d, !w, d, i < 0 ? "1" : TB[k][i]);
            if (isPrime(g, d, TB[k]) != w) FAIL("isPrime(%s, %d, published table) = %d: the order is (2^%d-1)/%s", ps(g).c_str(), d, !w, d, i < 0 ? "1" : TB[k][i]);
            if (o(d, g) != w) FAIL("AlgorithmPrimitivity(published table)(%d, %s) = %d: the order is (2^%d-1)/%s", d, ps(g).c_str(), !w, d, i < 0 ? "1" : TB[k][i]);
        }
    }
    while (time_left()) {
        int dg = pick(30); if (pick(4) == 0) dg = pick(140); NTL::GF2X p; NTL::random(p, dg + 1); NTL::SetCoeff(p, dg); if (pick(8)) NTL::SetCoeff(p, 0);
        if (pick(2) && dg > 0) NTL::BuildIrred(p, dg), pick(2) && dg > 2 && (NTL::random(p, dg), NTL::SetCoeff(p, dg), NTL::SetCoeff(p, 0), 0);
        if (pick(30) == 0) NTL::clear(p);
        NTL::GF2X keep = p; bool ir = irr(p); long d = NTL::deg(p);
        if (isIrreducible(p) != ir) FAIL("isIrreducible(%s) = %d", ps(p).c_str(), !ir);
        if (isPrime(p) != (ir && me((uint32_t)d))) FAIL("isPrime(%s) = %d", ps(p).c_str(), (int)isPrime(p));
        for (int dd = d - 1; dd <= d + 1; dd++) if (MersennePrimitivity(dd, p) != (ir && dd == d)) FAIL("MersennePrimitivity(%d, %s) wrong", dd, ps(p).c_str());
        if (d >= 1 && d <= 40) {
            std::vector<long> f = fact((1L << d) - 1); 
            if (pick(4) == 0 && !f.empty()) f.erase(f.begin() + pick((int)f.size()));   // any list: the listed ones decide
            for (size_t i = f.size(); i > 1; i--) std::swap(f[i - 1], f[pick((int)i)]);
            bool ok = ir; for (long x : f) { NTL::GF2X y; NTL::PowerXMod(y, NTL::to_ZZ(((1L << d) - 1) / x), p); if (d == 1) y = y % p; if (NTL::IsOne(y)) ok = false; }
            NTL::Vec<NTL::ZZ> z; z.SetLength(f.size()); std::vector<std::string> s; std::vector<const char*> t; for (size_t i = 0; i < f.size(); i++) { z[i] = NTL::to_ZZ(f[i]); s.push_back(std::to_string(f[i])); }
            for (auto& x : s) t.push_back(x.c_str()); t.push_back(0);
            bool a = isPrime(p, (int)d, z), b = isPrime(p, (int)d, t.data()); AlgorithmPrimitivity o(t.data()); bool e = o((int)d, p);
            std::string fl; for (auto& x : s) fl += x + " ";
            if (a != ok) FAIL("isPrime(%s, %ld, [%s]) = %d", ps(p).c_str(), d, fl.c_str(), a);
            if (b != ok) FAIL("isPrime(%s, %ld, table [%s]) = %d", ps(p).c_str(), d, fl.c_str(), b);
            if (e != ok) FAIL("AlgorithmPrimitivity[%s](%ld, %s) = %d", fl.c_str(), d, ps(p).c_str(), e);
            if (isPrime(p, (int)d + 1, z) || isPrime(p, (int)d - 1, z) || isPrime(p, (int)d + 1, t.data()) || o((int)d + 1, p) || o((int)d - 1, p)) FAIL("accepted %s for another degree", ps(p).c_str());
            if (ok) acc++;
        }
        if (p != keep) FAIL("the polynomial is changed");
        n++;
    }
    printf("runs %ld accepted %ld\n", n, acc);
}
