// replay driver for C14: k(v) against brute force linear algebra
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
enum { W = sizeof(U) * 8 };
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0;
    while (time_left()) {
        int nb = 1 + pick(pick(3) ? 20 : 62); Toy<U> g(nb, rnd(), 0, pick(4)); g.s = rndbits(nb); if (!g.s && pick(4)) g.s = 1; g.rev = pick(4) == 0;
        if (pick(4) == 0) { g.ntemp = 1; g.rot = pick(2); g.sh[0] = 1 + pick(W - 1); g.pat[0] = (U)rnd(); g.setUpTempering(); }
        int len = pick(3) ? 1 + pick(W) : W; Toy<U> h(g); int veq[W + 2]; for (int i = 0; i < W + 2; i++) veq[i] = -77;
        try {
            AlgorithmEquidistribution<U> a(g, len); int sum = a.get_all_equidist(veq); long want = 0;
            for (int i = 1; i <= len; i++) { int k = oracle_k(h, i); want += nb / i - k; if (veq[i - 1] != k) FAIL("%d state bits, %d of %d bits: k is %d, exact value %d", nb, i, len, veq[i - 1], k); }
            if (veq[len] != -77) FAIL("k(v) array is written beyond the width %d", len);
            if (sum != want) FAIL("sum %d, expected %ld", sum, want);
            AlgorithmEquidistribution<U> b(g, len); int s2 = -5; int k = b.get_equidist(&s2);
            if (k != veq[len - 1]) FAIL("get_equidist returns %d, k(%d) is %d", k, len, veq[len - 1]);
            if (s2 != want - (nb / len - k)) FAIL("get_equidist sum %d, expected %ld", s2, want - (nb / len - k));
        } catch (std::logic_error *x) { FAIL("%d state bits, width %d: exception %s", nb, len, x->what()); }
        if (g.s != h.s || g.A != h.A || g.pat[0] != h.pat[0] || g.rev != h.rev) FAIL("the generator is changed");
        n++;
    }
    printf("runs %ld\n", n);
}
