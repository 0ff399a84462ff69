// replay driver for C11 (and the table part of C09): prime factor tables through both readers
#include "toy.h"
struct T { int n; const char** t; };
static T TT[] = {{128, prime_factors2_128_1}, {160, prime_factors2_160_1}, {192, prime_factors2_192_1}, {224, prime_factors2_224_1}, {256, prime_factors2_256_1}, {288, prime_factors2_288_1}, {320, prime_factors2_320_1}, {352, prime_factors2_352_1},
  {384, prime_factors2_384_1}, {416, prime_factors2_416_1}, {448, prime_factors2_448_1}, {480, prime_factors2_480_1}, {512, prime_factors2_512_1}, {544, prime_factors2_544_1}, {640, prime_factors2_640_1}, {800, prime_factors2_800_1}, {960, prime_factors2_960_1}};
static std::string zs(const NTL::ZZ& z) { std::stringstream s; s << z; return s.str(); }
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0;
    for (auto& t : TT) {
        AlgorithmPrimitivity o(t.t); NTL::ZZ N = NTL::power(NTL::to_ZZ(2), t.n) - 1, m = N; NTL::Vec<NTL::ZZ>& l = *o.primes; long cnt = 0; while (t.t[cnt]) cnt++;
        if (l.length() != cnt) FAIL("2^%d-1: object holds %ld of %ld factors", t.n, l.length(), cnt);
        for (long i = 0; i < cnt; i++) {
            if (zs(l[i]) != t.t[i]) FAIL("2^%d-1: object reads entry %s as %s", t.n, t.t[i], zs(l[i]).c_str());
            if (l[i] < 2 || !NTL::ProbPrime(l[i], 30)) FAIL("2^%d-1: entry %s is not prime", t.n, t.t[i]);
            if (!NTL::IsZero(N % l[i])) FAIL("2^%d-1: entry %s does not divide", t.n, t.t[i]);
            for (long j = 0; j < i; j++) if (l[i] == l[j]) FAIL("2^%d-1: entry %s twice", t.n, t.t[i]);
            while (NTL::IsZero(m % l[i])) m /= l[i];
        }
        if (!NTL::IsOne(m)) FAIL("2^%d-1: a prime divisor of %s is missing", t.n, zs(m).c_str());
    }
    // an irreducible polynomial of order (2^n-1)/q must be rejected through both readers, a primitive one accepted
    for (int round = 0; time_left(); round++) for (auto& t : TT) {
        if (!time_left()) break;
        AlgorithmPrimitivity o(t.t); NTL::Vec<NTL::ZZ>& l = *o.primes; NTL::ZZ N = NTL::power(NTL::to_ZZ(2), t.n) - 1; NTL::GF2X p, x, y;
        for (;;) { NTL::GF2X r; do { NTL::random(r, t.n); NTL::SetCoeff(r, t.n); NTL::SetCoeff(r, 0); } while (!NTL::IterIrredTest(r)); p = r; bool ok = true; for (long i = 0; i < l.length() && ok; i++) { NTL::PowerXMod(y, N / l[i], p); if (NTL::IsOne(y)) ok = false; } if (ok) break; }
        if (!o(t.n, p) || !isPrime(p, t.n, t.t)) FAIL("a primitive polynomial of degree %d is rejected", t.n);
        for (long i = 0; i < l.length() && time_left(); i++) {
            NTL::PowerXMod(y, l[i], p); NTL::GF2X f; NTL::MinPolyMod(f, y, p); if (NTL::deg(f) != t.n) continue;
            if (o(t.n, f)) FAIL("object accepts an irreducible polynomial of order (2^%d-1)/%s", t.n, t.t[i]);
            if (isPrime(f, t.n, t.t)) FAIL("isPrime accepts an irreducible polynomial of order (2^%d-1)/%s", t.n, t.t[i]);
            n++;
        }
    }
    printf("tables 17, non-primitive polynomials rejected %ld\n", n);
}
