// replay driver for C15: sums of defects, theoretical bound, reducible variant
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
enum { W = sizeof(U) * 8 };
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0, thrown = 0, red = 0;
    while (time_left()) {
        int nb = 1 + pick(pick(3) ? 20 : 62); Toy<U> g(nb, rnd(), 0, pick(4)); g.s = rndbits(nb); if (!g.s) g.s = 1; g.rev = pick(4) == 0;
        int len = pick(3) ? 1 + pick(W) : W, me = pick(3) ? 1 + pick(nb + 10) : 0, sz = me ? me : nb; int veq[W], ks[W]; bool over = false; long want = 0;
        for (int i = len; i >= 1; i--) { ks[i - 1] = oracle_k(g, i); want += sz / i - ks[i - 1]; if (ks[i - 1] > sz / i) over = true; }
        bool ex = false; int sum = 0;
        try { AlgorithmEquidistribution<U> a(g, len, me); sum = a.get_all_equidist(veq); } catch (std::logic_error *x) { ex = true; thrown++; }
        if (ex != over) FAIL("state size %d, width %d: exception %d, expected %d", sz, len, ex, over);
        if (!ex) { if (sum != want) FAIL("state size %d, width %d: sum %d, expected %ld", sz, len, sum, want);
            AlgorithmEquidistribution<U> b(g, len, me); int s2 = -5; int k = b.get_equidist(&s2);
            if (k != ks[len - 1] || s2 != want - (sz / len - k)) FAIL("state size %d, width %d: get_equidist %d with sum %d, expected %d with %ld", sz, len, k, s2, ks[len - 1], want - (sz / len - k)); }
        n++;
        // reducible: a factor of the characteristic polynomial
        { Toy<U> r(4 + pick(26), rnd(), 0, pick(2)); r.s = rndbits(r.n); if (!r.s) r.s = 1; Toy<U> t(r); NTL::GF2X chi(0, 1); calcCharacteristicPolynomial(&t, chi);
          NTL::vec_pair_GF2X_long fs; NTL::CanZass(fs, chi); if (fs.length() < 1) continue;
          NTL::GF2X f = fs[pick((int)fs.length())].a; int d = (int)NTL::deg(f); if (d < 2) continue; red++;
          Toy<U> o(r); { NTL::GF2X y(0, 1); calcCharacteristicPolynomial(&o, y); annihilate<U>(&o, y / f); }
          int l2 = 1 + pick(W); long w2 = 0; bool ov = false; int k2 = 0; for (int i = l2; i >= 1; i--) { int k = oracle_k(o, i); if (i == l2) k2 = k; w2 += d / i - k; if (k > d / i) ov = true; }
          Toy<U> keep(r); bool e2 = false; int s1 = 0, s3 = 0, kk = 0; int vq[W];
          try { AlgorithmReducibleEquidistribution<U, Toy<U> > a(r, f, l2, d); s1 = a.get_all_equidist(vq); AlgorithmReducibleEquidistribution<U, Toy<U> > b(r, f, l2, d); kk = b.get_equidist(&s3); } catch (std::logic_error *x) { e2 = true; }
          if (e2 != ov) FAIL("reducible, degree %d, width %d: exception %d, expected %d", d, l2, e2, ov);
          if (!e2 && s1 != w2) FAIL("reducible, degree %d, width %d: sum %d, expected %ld", d, l2, s1, w2);
          if (!e2 && (kk != k2 || s3 != w2 - (d / l2 - k2))) FAIL("reducible, degree %d, width %d: get_equidist %d with %d, expected %d with %ld", d, l2, kk, s3, k2, w2 - (d / l2 - k2));
          if (!e2) for (int i = 1; i <= l2; i++) if (vq[i - 1] != oracle_k(o, i)) FAIL("reducible: k(%d) is %d", i, vq[i - 1]);
          if (r.s != keep.s || r.A != keep.A) FAIL("the given generator is changed");
        }
    }
    printf("runs %ld thrown %ld reducible %ld\n", n, thrown, red);
}
