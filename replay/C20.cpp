// replay driver for C20: period certification
// VARIANT: -DGEN=10
// VARIANT: -DGEN=11
#include "gens.h"
static int par(uint64_t x) { return __builtin_popcountll(x) & 1; }
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
        std::unique_ptr<G> a(make());
        w128_t p; p.u64[0] = rndw(64); p.u64[1] = rndw(64);
        if (rnd() % 3 == 0) { p.u64[0] = p.u64[1] = 0; p.u64[rnd() & 1] = 1ULL << (rnd() % 64); }
        a->setParityValue(p); random_state(*a);
        if (rnd() % 4 == 0) cursor(*a) = 0;
        View o = view(*a); std::string ps = pstr(*a); int cur = cursor(*a);
#if GEN == 10
        w128_t before = a->state[0], after; int r = a->periodCertification(); after = a->state[0];
        int b0 = par(before.u64[0] & p.u64[0]) ^ par(before.u64[1] & p.u64[1]), b1 = par(after.u64[0] & p.u64[0]) ^ par(after.u64[1] & p.u64[1]);
#else
        w128_t fix; fix.u64[0] = rndw(64); fix.u64[1] = rndw(64); a->setFixPoint(fix); ps = pstr(*a);
        bool noFix = rnd() & 1; w128_t before = a->lung, after; int r;
        if (!noFix && (rnd() & 1)) r = a->periodCertification(); else r = a->periodCertification(noFix);
        after = a->lung;
        w128_t f = fix; if (noFix) f.u64[0] = f.u64[1] = 0;
        int b0 = par((before.u64[0] ^ f.u64[0]) & p.u64[0]) ^ par((before.u64[1] ^ f.u64[1]) & p.u64[1]);
        int b1 = par((after.u64[0] ^ f.u64[0]) & p.u64[0]) ^ par((after.u64[1] ^ f.u64[1]) & p.u64[1]);
#endif
        View w = view(*a); int diff = 0; for (size_t i = 0; i < w.size(); i++) diff += __builtin_popcountll(w[i].v ^ o[i].v);
        bool nz = p.u64[0] | p.u64[1];
#define D "parity %016" PRIx64 ".%016" PRIx64 " word %016" PRIx64 ".%016" PRIx64 " after %016" PRIx64 ".%016" PRIx64
#define A p.u64[1], p.u64[0], before.u64[1], before.u64[0], after.u64[1], after.u64[0]
        if (nz && !b1) FAIL("%s parity even after certification: " D, GN, A);
        if (b0 && diff) FAIL("%s certified state changed: " D, GN, A);
        if (nz && !b0 && diff != 1) FAIL("%s %d bits changed: " D, GN, diff, A);
        if (nz && (r == 1) != (b0 == 1)) FAIL("%s returns %d for parity %d: " D, GN, r, b0, A);
        if (cursor(*a) != cur || pstr(*a) != ps) FAIL("%s certification changes cursor or parameters", GN);
        n++;
    }
    printf("%s runs %ld\n", GN, n);
}
