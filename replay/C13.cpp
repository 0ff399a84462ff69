// replay driver for C13: reducible search, characteristic polynomial, annihilate
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
static NTL::GF2X factor_of(const NTL::GF2X& f, int d, bool& has) { // irreducible factor of degree d, by full factorisation
    NTL::vec_pair_GF2X_long fs; NTL::CanZass(fs, f); has = false; NTL::GF2X r; for (long i = 0; i < fs.length(); i++) if (NTL::deg(fs[i].a) == d) { has = true; r = fs[i].a; } return r; }
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0, succ = 0;
    while (time_left()) {
        int me = 2 + pick(18), nb = me + pick(me); if (pick(5) == 0) nb = me;
        Toy<U> g(nb, rnd(), me, pick(4)); g.s = rndbits(nb); if (pick(3) == 0) g.rev = true;
        PG pg(rnd()); AlgorithmReducibleRecursionSearch<U> s(g, pg);
        Toy<U> m(g); long pos = 0, cnt = 0;
        if (s.getCount() != 0) FAIL("a fresh search has count %ld", s.getCount());
        for (int round = 0; round < 4; round++) {
            int tc = pick(3) == 0 ? pick(3) : 1 + pick(3 * me); if (pick(12) == 0) tc = -pick(3);
            bool want = false; NTL::GF2X mp, fac; PG pm(pg.salt); pm.pos = pos; int used = 0;
            for (int i = 0; i < tc; i++) { m.setUpParam(pm); m.seed((U)1); used++; Toy<U> t(m); mp = oracle_minpoly(t, 0, nb); for (int j = 0; j < 2 * nb; j++) m.generate();
                bool has = false; if (NTL::deg(mp) >= me) fac = factor_of(mp, me, has); if (has) { want = true; break; } }
            bool got = s.start(tc); cnt += used; pos += used;
            if (got != want) FAIL("start(%d) returns %d, expected %d (bits %d mexp %d)", tc, got, want, nb, me);
            if (pg.pos != pos) FAIL("start(%d) drew up to %ld parameters, expected %ld", tc, pg.pos, pos);
            if (s.getCount() != cnt) FAIL("counter %ld after %ld drawn parameters", s.getCount(), cnt);
            if (got) { succ++; if (s.getCharacteristicPolynomial() != mp) FAIL("unfactored polynomial %s, expected %s", ps(s.getCharacteristicPolynomial()).c_str(), ps(mp).c_str());
                if (s.getIrreducibleFactor() != fac) FAIL("factor %s, expected %s", ps(s.getIrreducibleFactor()).c_str(), ps(fac).c_str());
                if (g.id != m.id || g.A != m.A || g.s != m.s) FAIL("the generator does not hold the accepted parameter"); }
        }
        { // characteristic polynomial
            Toy<U> a(nb, rnd(), me, pick(4)); a.s = pick(6) ? rndbits(nb) : 1; Toy<U> b(a); NTL::GF2X p0(0, 1), w; if (pick(3) == 0) { NTL::random(p0, 1 + pick(8)); if (NTL::IsZero(p0)) p0 = NTL::GF2X(0, 1); }
            NTL::GF2X p = p0; calcCharacteristicPolynomial(&a, p); w = p0; long dr = 0;
            for (int i = 0; i < WB<U>::W && NTL::deg(w) != nb; i++) { NTL::GF2X mp = oracle_minpoly(b, i, nb); for (int j = 0; j < 2 * nb; j++) { b.generate(); dr++; } w = w / NTL::GCD(w, mp) * mp; }
            if (p != w) FAIL("characteristic polynomial %s, expected %s (start %s, bits %d)", ps(p).c_str(), ps(w).c_str(), ps(p0).c_str(), nb);
            if (a.s != b.s || a.A != b.A) FAIL("calcCharacteristicPolynomial leaves the generator elsewhere");
        }
        { // annihilate
            Toy<U> a(nb, rnd(), me, pick(4)); a.s = rndbits(nb); a.rev = pick(2); a.pat[0] = rnd(); Toy<U> b(a); NTL::GF2X f; NTL::random(f, pick(60)); if (pick(8) == 0) f = NTL::GF2X(0, 1); if (pick(20) == 0) NTL::clear(f);
            annihilate<U>(&a, f); u64 e = 0; Toy<U> t(b); for (long i = 0; i <= NTL::deg(f); i++) { if (NTL::IsOne(NTL::coeff(f, i))) e ^= t.s; t.generate(); }
            if (a.s != e) FAIL("annihilate by %s: state %" PRIx64 " expected %" PRIx64, ps(f).c_str(), a.s, e);
            if (a.A != b.A || a.rev != b.rev || a.pat[0] != b.pat[0]) FAIL("annihilate changes more than the state");
        }
        n++;
    }
    printf("runs %ld successes %ld\n", n, succ);
}
