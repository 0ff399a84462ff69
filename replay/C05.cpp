// replay driver for C05: linearity of every generator
// FLAGS: -DUSE_SHA
// VARIANT: -DGEN=1
// VARIANT: -DGEN=2
// VARIANT: -DGEN=3
// VARIANT: -DGEN=4
// VARIANT: -DGEN=5
// VARIANT: -DGEN=6
// VARIANT: -DGEN=7
// VARIANT: -DGEN=8
// VARIANT: -DGEN=9
// VARIANT: -DGEN=10
// VARIANT: -DGEN=11
#include "gens.h"
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
        std::unique_ptr<G> a(make()), b(copy(*a));
        random_state(*b);
        View va = view(*a), vb = view(*b);
        std::unique_ptr<G> s(copy(*a));
        s->add(*b);
        View vs = view(*s);
        for (size_t i = 0; i < vs.size(); i++) if (vs[i].v != (va[i].v ^ vb[i].v)) FAIL("%s add: view word %zu is %" PRIx64 " expected %" PRIx64 "; %s a=%s b=%s cursors %d %d", GN, i, vs[i].v, va[i].v ^ vb[i].v, pstr(*a).c_str(), show(va).c_str(), show(vb).c_str(), cursor(*a), cursor(*b));
        if (!same(view(*b), vb)) FAIL("%s add changes the addend", GN);
        int steps = 1 + rnd() % (n % 16 ? 4 : 3 + 2 * (ringlen(*a) + 2));
        for (int k = 0; k < steps; k++) {
            O x = ob(a->generate()), y = ob(b->generate()), z = ob(s->generate());
            if (z != (x ^ y)) FAIL("%s step %d: output of the sum %s, XOR of the outputs %s; %s a=%s b=%s cursors %d %d", GN, k, str(z).c_str(), str(x ^ y).c_str(), pstr(*a).c_str(), show(va).c_str(), show(vb).c_str(), cursor(*a), cursor(*b));
            View p = view(*a), q = view(*b), r = view(*s);
            for (size_t i = 0; i < r.size(); i++) if (r[i].v != (p[i].v ^ q[i].v)) FAIL("%s step %d: state word %zu of the sum %" PRIx64 " expected %" PRIx64 "; %s a=%s b=%s", GN, k, i, r[i].v, p[i].v ^ q[i].v, pstr(*a).c_str(), show(va).c_str(), show(vb).c_str());
        }
        View sv = view(*s);
        std::unique_ptr<G> z(copy(*s)); z->setZero();
        for (auto w : view(*z)) if (w.v) FAIL("%s setZero leaves %s", GN, show(view(*z)).c_str());
        s->add(*z);
        if (!same(sv, view(*s))) FAIL("%s zero is not neutral: %s", GN, pstr(*s).c_str());
        for (int k = 0; k < 3; k++) { O x = ob(z->generate()); if (x.h | x.l) FAIL("%s zero state outputs %s", GN, str(x).c_str()); }
        for (auto w : view(*z)) if (w.v) FAIL("%s zero state becomes %s", GN, show(view(*z)).c_str());
        z->setZero(); z->add(*s);
        if (!same(sv, view(*z))) FAIL("%s 0 + s is not s: %s", GN, pstr(*s).c_str());
        n++;
    }
    printf("%s runs %ld\n", GN, n);
}
