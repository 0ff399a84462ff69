// replay driver for C10: hasFactorOfDegree
#include "toy.h"
#include <NTL/GF2XFactoring.h>
static NTL::GF2X rirr(int d) { NTL::GF2X p; do { NTL::random(p, d); NTL::SetCoeff(p, d); } while (!irr(p)); return p; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; NTL::SetSeed(NTL::to_ZZ((long)(rnd() >> 2))); long n = 0, yes = 0;
    auto one = [&](const NTL::GF2X& f, long d) {
        NTL::GF2X p = f; NTL::vec_pair_GF2X_long fs; NTL::CanZass(fs, f); bool want = false; NTL::GF2X fac; std::string l;
        for (long i = 0; i < fs.length(); i++) { if (NTL::deg(fs[i].a) == d) { want = true; fac = fs[i].a; } for (long j = 0; j < fs[i].b; j++) l += std::to_string(NTL::deg(fs[i].a)) + " "; }
        bool got = hasFactorOfDegree(p, d);
        if (got != want) FAIL("hasFactorOfDegree(%s, %ld) = %d; irreducible factors have degrees %s", ps(f).c_str(), d, got, l.c_str());
        if (got && p != fac) FAIL("hasFactorOfDegree(%s, %ld) leaves %s, the factor is %s", ps(f).c_str(), d, ps(p).c_str(), ps(fac).c_str());
        if (got) yes++; n++;
    };
    for (long x = 1; x < 2048; x++) { NTL::GF2X f; for (int i = 0; i < 11; i++) if ((x >> i) & 1) NTL::SetCoeff(f, i); for (long d = NTL::deg(f) / 2 + 1; d <= NTL::deg(f) + 2; d++) one(f, d); }
    while (time_left()) {
        int d = 1 + pick(pick(3) ? 40 : 130); NTL::GF2X f(0, 1); int room = d - 1;
        int kind = pick(5); if (kind != 0) f = rirr(d); else if (pick(2) && d > 1) { f = rirr(d + pick(d)); room = 2 * d - 1 - (int)NTL::deg(f); } else room = 2 * d - 1;
        while (room > 0 && pick(6)) { int e = 1 + pick(pick(2) ? std::min(room, 6) : room); if (e == d && kind == 0) { room -= 0; if (d == 1) break; continue; } NTL::GF2X g = pick(5) ? rirr(e) : NTL::GF2X(1, 1), h; int m = 1 + pick(3); for (int i = 0; i < m && NTL::deg(g) <= room; i++) { f *= g; room -= (int)NTL::deg(g); } if (NTL::deg(g) < 1) break; }
        if (pick(6) == 0) { NTL::random(f, 2 * d); if (NTL::IsZero(f)) continue; }
        if (NTL::deg(f) < 2 * d) one(f, d);
    }
    printf("runs %ld true %ld\n", n, yes);
}
