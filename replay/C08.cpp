// replay driver for C08: minpoly, LCM
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0; const int W = WB<U>::W;
    while (time_left()) {
        int nb = 1 + pick(40); Toy<U> g(nb, rnd(), 0, pick(4)); g.s = rndbits(nb);
        int pos = pick(W), size = pick(3) ? 0 : 1 + pick(60); if (pick(8) == 0) size = -pick(5);
        bool dflt = pick(4) == 0; if (dflt) { pos = 0; size = 0; }
        Toy<U> g2(g); NTL::GF2X p(pick(70), 1), lw; long d0 = g.draws;
        if (dflt) minpoly(p, g); else minpoly(p, g, pos, size);
        int eff = size > 0 ? size : nb;
        if (g.draws - d0 != 2 * eff) FAIL("minpoly draws %ld outputs, size %d bitSize %d", g.draws - d0, size, nb);
        lw = oracle_minpoly(g2, pos, eff);
        for (int i = 0; i < 2 * eff; i++) g2.generate();
        if (g2.s != g.s || g2.A != g.A) FAIL("minpoly leaves the generator elsewhere");
        // unique when the linear complexity is at most size
        std::vector<int> b; Toy<U> g3(g2); (void)g3;
        if (NTL::deg(lw) <= eff && p != lw) FAIL("minpoly pos %d size %d bitSize %d: %s expected %s", pos, size, nb, ps(p).c_str(), ps(lw).c_str());
        // LCM
        NTL::GF2X x, y, e, gg; 
        NTL::random(x, 1 + pick(40)); NTL::random(y, 1 + pick(40)); NTL::random(gg, 1 + pick(20));
        if (pick(2)) { x *= gg; y *= gg; }
        if (NTL::IsZero(x) || NTL::IsZero(y)) continue;
        if (pick(6) == 0) y = x;
        gg = NTL::GCD(x, y); e = x / gg * y; NTL::GF2X l, x1 = x, y1 = y;
        int al = pick(3); LCM(al == 0 ? l : al == 1 ? x1 : y1, x1, y1);
        NTL::GF2X& r = al == 0 ? l : al == 1 ? x1 : y1;
        if (r != e) FAIL("LCM(%s, %s) aliasing %d = %s expected %s", ps(x).c_str(), ps(y).c_str(), al, ps(r).c_str(), ps(e).c_str());
        if (al != 1 && x1 != x) FAIL("LCM changes its first argument"); if (al != 2 && y1 != y) FAIL("LCM changes its second argument");
        n++;
    }
    printf("runs %ld\n", n);
}
