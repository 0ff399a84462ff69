// replay driver for C06: truncated output, copies
// FLAGS: -DUSE_SHA
// VARIANT: -DGEN=1
// VARIANT: -DGEN=2
// VARIANT: -DGEN=3
// VARIANT: -DGEN=4
// VARIANT: -DGEN=5
// VARIANT: -DGEN=6
// VARIANT: -DGEN=7
// VARIANT: -DGEN=8
// VARIANT: -DGEN=9
// VARIANT: -DGEN=10
// VARIANT: -DGEN=11
#include "gens.h"
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
        std::unique_ptr<G> a(make()); bool rv = false;
        if (has_reverse()) { rv = rnd() & 1; set_reverse(*a, rv); }
        View va = view(*a); std::string ps = pstr(*a);
        std::unique_ptr<G> b(copy(*a)), d(new G(*a)); 
        if (!same(view(*b), va) || !same(view(*d), va)) FAIL("%s: clone or copy has another state; %s", GN, ps.c_str());
        if (pstr(*b) != ps || pstr(*d) != ps) FAIL("%s: clone has parameters %s, original %s", GN, pstr(*b).c_str(), ps.c_str());
        if (b->bitSize() != a->bitSize() || d->bitSize() != a->bitSize()) FAIL("%s: clone has another bit size", GN);
        int steps = 1 + rnd() % 6;
        for (int k = 0; k < steps; k++) {
            int w = 1 + rnd() % WB;
            O full = ob(a->generate()), cut = ob(b->generate(w)), e = topbits(rv ? rev(full) : full, w);
            if (cut != e) FAIL("%s step %d: generate(%d) with reverse %d gives %s, full output %s, expected %s; %s state %s", GN, k, w, rv, str(cut).c_str(), str(full).c_str(), str(e).c_str(), ps.c_str(), show(va).c_str());
            if (!same(view(*a), view(*b))) FAIL("%s step %d: generate(%d) advances the state differently from generate(); %s", GN, k, w, ps.c_str());
        }
        // the copy is independent of the original
        for (int k = 0; k < steps; k++) { int w = 1 + rnd() % WB; std::unique_ptr<G> t(copy(*d)); O x = ob(d->generate(w)); O f = ob(t->generate()); O e = topbits(rv ? rev(f) : f, w); if (x != e) FAIL("%s: copy generate(%d) reverse %d gives %s expected %s", GN, w, rv, str(x).c_str(), str(e).c_str()); }
        if (!same(view(*a), view(*d))) FAIL("%s: copy and original differ after %d outputs; %s state %s", GN, steps, ps.c_str(), show(va).c_str());
        View vd = view(*d);
        if (rnd() % 4 == 0) { random_state(*a); a->generate(); } else if (rnd() & 1) a->setZero(); else a.reset();
        if (!same(vd, view(*d))) FAIL("%s: copy shares its state with the original", GN);
        n++;
    }
    printf("%s runs %ld\n", GN, n);
}
