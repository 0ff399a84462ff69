// replay driver for C21: TestLinearity
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
#undef MAXD
// a generator that is linear except for a planted deviation at one output
static int MODE, AT; static U DEV;
class Dev : public EquidistributionCalculatable<U> {
public:
    u64 s[3]; long t; u64 tag; // tag: which combination of seeds this state is (bit 0: seed 1234, bit 1: seed 4321, bit 2: contains itself twice)
    std::vector<u64> A; int nb; u64 k;
    Dev(u64 k_) : t(0), tag(0), nb(32), k(k_) { s[0] = 0; for (int i = 0; i < 32; i++) { u64 x = k + i; A.push_back(Toy<U>::mixx(x) & 0xffffffffULL); } }
    U generate() { s[0] = mulA(A, s[0]); t++; U r = 0; u64 x = s[0] * 0; for (int i = 0; i < WB<U>::W; i++) { u64 kk = k + 1000 + i; x = Toy<U>::mixx(kk) & 0xffffffffULL; if (par64(x & s[0])) r |= (U)1 << i; }
        if (t == AT + 1) { if (MODE == 1 && tag == 0) r ^= DEV; if (MODE == 2 && tag == 1) r ^= DEV; if (MODE == 3 && tag == 2) r ^= DEV; if (MODE == 4 && tag == 3) r ^= DEV; }
        return r; }
    U generate(int v) { U r = generate(); return v >= WB<U>::W ? r : r & (U)(~(U)0 << (WB<U>::W - v)); }
    void seed(U v) { u64 x = v * 31ULL + 5; s[0] = Toy<U>::mixx(x) & 0xffffffffULL; tag = v == 1234 ? 1 : v == 4321 ? 2 : 8; t = 0; }
    int bitSize() const { return nb; }
    void setUpParam(ParameterGenerator&) {}
    const std::string getHeaderString() { return ""; } const std::string getParamString() { return ""; }
    EquidistributionCalculatable<U>* clone() const { return new Dev(*this); }
    void add(EquidistributionCalculatable<U>& o) { Dev& d = dynamic_cast<Dev&>(o); s[0] ^= d.s[0]; tag ^= d.tag; if (MODE == 5) s[0] ^= d.s[0] & 1; }
    void setZero() { s[0] = 0; tag = 0; } bool isZero() const { return !s[0]; }
};
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0;
    while (time_left()) {
        Toy<U> g(1 + pick(50), rnd(), 0, pick(4)); g.s = rndbits(g.n); u64 s0 = g.s; std::vector<u64> A0 = g.A; bool r0 = pick(2); if (r0) g.setReverseOutput();
        TestLinearity<U> tl;
        bool ok = tl(g);
        if (!ok) FAIL("a linear generator is rejected (bits %d)", g.n);
        if (g.s != s0 || g.A != A0 || g.rev != r0) FAIL("the tested generator is changed");
        MODE = 1 + pick(4); AT = pick(5) ? pick(100) : 100 + pick(3); if (pick(6) == 0) AT = 99; DEV = (U)rndw(WB<U>::W); if (!DEV) DEV = 1;
        Dev d(rnd()); d.s[0] = rnd() & 0xffffffff; u64 ds = d.s[0];
        ok = tl(d);
        if (ok != (AT >= 100)) FAIL("deviation mode %d at output %d of word %" PRIx64 ": answered %s", MODE, AT, (u64)DEV, ok ? "linear" : "not linear");
        if (d.s[0] != ds || d.t) FAIL("the tested generator is changed");
        MODE = 0; n++;
    }
    printf("runs %ld\n", n);
}
