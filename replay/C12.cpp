// replay driver for C12: AlgorithmRecursionSearch
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
static const char* F4[] = {"3", "5", 0}; static const char* F6[] = {"3", "7", 0}; static const char* F8[] = {"3", "5", "17", 0}; static const char* F10[] = {"3", "11", "31", 0}; static const char* F12[] = {"3", "5", "7", "13", 0}; static const char* F11[] = {"23", "89", 0};
static bool prim(const NTL::GF2X& p, int n, const char** f) { if (NTL::deg(p) != n || !irr(p)) return false; if (!f) return true; NTL::GF2X x(1, 1), r; for (; *f; f++) { long e = ((1L << n) - 1) / atol(*f); NTL::PowerXMod(r, NTL::to_ZZ(e), p); if (NTL::IsOne(r)) return false; } return true; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0, succ = 0;
    int ns[] = {3, 5, 7, 13, 17, 4, 6, 8, 10, 12, 11}; const char** fs[] = {0, 0, 0, 0, 0, F4, F6, F8, F10, F12, F11};
    while (time_left()) {
        int k = pick(11), nb = ns[k]; const char** fl = fs[k];
        if (fl && pick(4) == 0) fl = 0;   // irreducibility only (default object)
        Toy<U> g(nb, rnd(), 0, pick(2)); g.s = rndbits(nb); if (pick(3) == 0) g.rev = true;
        PG pg(rnd()); std::unique_ptr<AlgorithmPrimitivity> own(fl ? new AlgorithmPrimitivity(fl) : 0);
        std::unique_ptr<AlgorithmRecursionSearch<U> > s(fl ? new AlgorithmRecursionSearch<U>(g, pg, *own) : new AlgorithmRecursionSearch<U>(g, pg));
        Toy<U> m(g); long pos = 0, cnt = 0; 
        if (s->getCount() != 0) FAIL("a fresh search has count %ld", s->getCount());
        for (int round = 0; round < 6; round++) {
            int tc = pick(3) == 0 ? pick(3) : 1 + pick(3 * nb); if (pick(12) == 0) tc = -pick(3);
            bool want = false; NTL::GF2X mp;
            PG pm(pg.salt); pm.pos = pos; int used = 0;
            for (int i = 0; i < tc; i++) { m.setUpParam(pm); m.seed((U)1); used++; Toy<U> t(m); mp = oracle_minpoly(t, 0, nb); for (int j = 0; j < 2 * nb; j++) m.generate(); if (NTL::deg(mp) == nb && prim(mp, nb, fl)) { want = true; break; } }
            bool got = s->start(tc); cnt += used; pos += used;
            if (got != want) FAIL("start(%d) returns %d, expected %d (bits %d, round %d)", tc, got, want, nb, round);
            if (pg.pos != pos) FAIL("start(%d) drew up to %ld parameters, expected %ld (bits %d)", tc, pg.pos, pos, nb);
            if (s->getCount() != cnt) FAIL("counter %ld after %ld drawn parameters", s->getCount(), cnt);
            if (got) { succ++; if (s->getMinPoly() != mp) FAIL("reported polynomial %s, accepted one %s", ps(s->getMinPoly()).c_str(), ps(mp).c_str());
                if (g.id != m.id || g.A != m.A || g.s != m.s) FAIL("the generator does not hold the accepted parameter");
                if (s->getParamString() != g.getParamString()) FAIL("parameter string differs"); }
            if (g.rev != m.rev) FAIL("output mode changed");
        }
        n++;
    }
    printf("runs %ld successes %ld\n", n, succ);
}
