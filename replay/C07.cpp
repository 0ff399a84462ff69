// replay driver for C07: zero test, zeroing, seeding, unit states
// FLAGS: -DUSE_SHA
// VARIANT: -DGEN=1
// VARIANT: -DGEN=2
// VARIANT: -DGEN=3
// VARIANT: -DGEN=4
// VARIANT: -DGEN=5
// VARIANT: -DGEN=6
// VARIANT: -DGEN=7
// VARIANT: -DGEN=8
// VARIANT: -DGEN=9
// VARIANT: -DGEN=10
// VARIANT: -DGEN=11
#include "gens.h"
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
        std::unique_ptr<G> a(make()); View va = view(*a);
        bool z = true; for (auto w : va) z &= (w.v & w.eff) == 0;
        if (a->isZero() != z) FAIL("%s isZero is %d for state %s cursor %d; %s", GN, a->isZero(), show(va).c_str(), cursor(*a), pstr(*a).c_str());
        // only bits that do not count
        for (size_t i = 0; i < va.size(); i++) setw_(*a, i, rndw(64) & va[i].used & ~va[i].eff);
        if (!a->isZero()) FAIL("%s isZero false for zero effective state %s cursor %d; %s", GN, show(view(*a)).c_str(), cursor(*a), pstr(*a).c_str());
        for (int k = 0; k < 8; k++) {
            int i = rnd() % va.size(); if (!va[i].eff) continue;
            uint64_t b; do b = 1ULL << (rnd() % 64); while (!(b & va[i].eff));
            if (rnd() % 3 == 0) { b = va[i].eff & -va[i].eff; } else if (rnd() % 3 == 0) { b = va[i].eff; while (b & (b - 1)) b &= b - 1; }
            uint64_t o = getw(*a, i).v; setw_(*a, i, o | b);
            if (a->isZero()) FAIL("%s isZero true with bit %" PRIx64 " of state word %d set, cursor %d; %s", GN, b, i, cursor(*a), pstr(*a).c_str());
            setw_(*a, i, o);
        }
        random_state(*a); a->setZero();
        if (!a->isZero()) FAIL("%s isZero false after setZero", GN);
        for (auto w : view(*a)) if (w.v) FAIL("%s setZero leaves %s", GN, show(view(*a)).c_str());
        // seeding forgets the state
        { std::unique_ptr<G> p(make()), q(copy(*p)); random_state(*q); uint64_t s = rndw(64); seed_any(*p, s); seed_any(*q, s);
          if (!same(view(*p), view(*q))) FAIL("%s seed(%" PRIx64 ") depends on the previous state: %s / %s; %s", GN, s, show(view(*p)).c_str(), show(view(*q)).c_str(), pstr(*p).c_str()); 
          for (int k = 0; k < 4; k++) if (ob(p->generate()) != ob(q->generate())) FAIL("%s seed(%" PRIx64 ") depends on the previous state", GN, s);
          if (GEN != 5 && n % 8 == 0) { bool zz = true; std::unique_ptr<G> r(copy(*p)); seed_any(*r, 1 + rnd() % 1000); for (auto w : view(*r)) zz &= (w.v & w.eff) == 0; if (zz) FAIL("%s seed gives the zero state", GN); } }
#if GEN >= 9
        if (n % 4 == 0) {
            std::unique_ptr<G> p(make_params()); int bs = p->bitSize(); std::set<std::pair<int, uint64_t> > seen;
            for (int i = 0; i < bs; i++) {
                random_state(*p); p->setOneBit(i); int cnt = 0, pos = -1; uint64_t bit = 0;
                int nw = nwords(*p), ring = GEN == 9 ? nw : 2 * ringlen(*p); 
                for (int k = 0; k < nw; k++) { uint64_t x = getw(*p, k).v; cnt += __builtin_popcountll(x); if (x) { pos = k < ring ? (k + (GEN == 9 ? 1 : 2) * cursor(*p)) % ring : k; bit = x; if (x & ~getw(*p, k).used) FAIL("%s setOneBit(%d) sets a bit outside the state", GN, i); } }
                if (cnt != 1) FAIL("%s setOneBit(%d) of %d sets %d bits", GN, i, bs, cnt);
                if (!seen.insert(std::make_pair(pos, bit)).second) FAIL("%s setOneBit(%d) of %d sets a bit already used", GN, i, bs);
            }
        }
#endif
        n++;
    }
    printf("%s runs %ld\n", GN, n);
}
