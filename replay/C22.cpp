// replay driver for C22: combined recursion + tempering searches
// VARIANT: -DU=uint32_t
// VARIANT: -DU=uint64_t
#include "toy.h"
struct RT_Log { int who; u64 id, s; U pat0, pat1, parity; bool rev, verbose; };
static std::vector<RT_Log> RL;
struct RecT : public AlgorithmTempering<U> {
    int who, idx; bool lsb; U val; RecT(int w, int i, bool l, U v) : who(w), idx(i), lsb(l), val(v) {}
    int operator()(TemperingCalculatable<U>& r, bool verbose) {
        Toy<U>& g = dynamic_cast<Toy<U>&>(r); RT_Log l; l.who = who; l.id = g.id; l.s = g.s; l.pat0 = g.pat[0]; l.pat1 = g.pat[1]; l.rev = g.rev; l.verbose = verbose; l.parity = g.parity; RL.push_back(l);
        r.setTemperingPattern((U)~(U)0, (U)(val ^ (U)g.s), idx); r.setUpTempering(); r.resetReverseOutput(); return 7; }
    bool isLSBTempering() const { return lsb; }
};
static std::vector<std::string> pf_s; static const char * pf_p[32];
static const char ** factors(int n) { pf_s.clear(); u64 x = (1ULL << n) - 1; for (u64 d = 3; d * d <= x; d += 2) if (x % d == 0) { pf_s.push_back(std::to_string(d)); while (x % d == 0) x /= d; } if (x > 1) pf_s.push_back(std::to_string(x)); for (size_t k = 0; k < pf_s.size(); k++) pf_p[k] = pf_s[k].c_str(); pf_p[pf_s.size()] = NULL; return pf_p; }
template<typename G> static void same(const G& a, const G& b, const char *t) {
    if (a.id != b.id || a.A != b.A || a.s != b.s || a.rev != b.rev || a.parity != b.parity) FAIL("%s: generator left in another state", t);
    for (int i = 0; i < 4; i++) if (a.pat[i] != b.pat[i] || a.live[i] != b.live[i]) FAIL("%s: tempering parameter %d is %llx, expected %llx", t, i, (unsigned long long)a.pat[i], (unsigned long long)b.pat[i]);
}
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0; std::ostringstream null;
    while (time_left()) {
        { // irreducible search
            int nb = 3 + pick(16); Toy<U> g0(nb, rnd(), 0, pick(4)); g0.ntemp = 2; u64 salt = rnd(); U t1 = rnd(), t2 = rnd(); bool nolsb = pick(3) == 0, one = pick(4) == 0; bool l2 = pick(2), l1 = pick(3) == 0; 
            Toy<U> ref(g0); PG pr(salt); AlgorithmPrimitivity cp(factors(nb)); NTL::GF2X mp;
            { AlgorithmRecursionSearch<U> s(ref, pr, cp); if (!s.start(20000)) continue; mp = s.getMinPoly(); }
            long pos = pr.pos; u64 sid = ref.id, ss = ref.s;
            int d[2]; bool warm = pick(2); u64 wsalt = rnd();   // the same search object may have been used before
            for (int verb = 0; verb < 2; verb++) {
                Toy<U> g(g0); PG pg(salt); AlgorithmPrimitivity cc(factors(nb)); RL.clear(); RecT a(1, 0, l1, t1), b(2, 1, l2, t2);
                AlgorithmRecursionAndTempering<U> rt(pg, cc); bool ok;
                if (warm) { Toy<U> w(nb, wsalt, 0, pick(4)); w.ntemp = 2; pg = PG(wsalt); rt.search(w, a, b, false, null, pick(2)); null.str(""); RL.clear(); pg = PG(salt); }
                if (one) ok = rt.search(g, a, verb, null); else if (!verb && !nolsb && pick(2)) ok = rt.search(g, a, b); else ok = rt.search(g, a, b, verb, null, nolsb); null.str("");
                bool both = !one && !nolsb;
                if (!ok) FAIL("search reports failure (verbose %d)", verb);
                if (g.id != sid || pg.pos != pos) FAIL("search accepted another parameter (verbose %d): source at %ld, expected %ld", verb, pg.pos, pos);
                if ((int)RL.size() != (both ? 2 : 1)) FAIL("%d temperings applied, expected %d (verbose %d no_lsb %d)", (int)RL.size(), both ? 2 : 1, verb, nolsb);
                size_t i = 0; if (both) { if (RL[0].who != 2) FAIL("MSB tempering ran before LSB tempering"); i = 1; } if (RL[i].who != 1) FAIL("the wrong tempering object was used");
                for (size_t j = 0; j < RL.size(); j++) { if (RL[j].id != sid || RL[j].s != ss) FAIL("tempering %zu saw generator state %" PRIx64 ", the search left %" PRIx64, j, RL[j].s, ss); if (RL[j].rev) FAIL("tempering %zu starts in reverse output mode", j); }
                if (i && RL[1].pat1 != (U)(t2 ^ (U)ss)) FAIL("the LSB tempering result was lost");
                Toy<U> e(ref); e.pat[0] = e.live[0] = (U)(t1 ^ (U)ss); if (both) e.pat[1] = e.live[1] = (U)(t2 ^ (U)ss); e.rev = false;
                same(g, e, verb ? "verbose search" : "search");
                if (rt.getCharacteristicPolynomial() != mp) FAIL("reported polynomial %s, accepted %s", ps(rt.getCharacteristicPolynomial()).c_str(), ps(mp).c_str());
                if (rt.getWeight() != NTL::weight(mp)) FAIL("weight %d of a polynomial with %ld terms", rt.getWeight(), NTL::weight(mp));
                int dl; { int veq[64]; AlgorithmEquidistribution<U> sb(e, bit_size<U>()); dl = sb.get_all_equidist(veq); }
                if (rt.getDelta() != dl) FAIL("reported defect %d, the generator left behind has %d (verbose %d no_lsb %d)", rt.getDelta(), dl, verb, nolsb);
                d[verb] = rt.getDelta();
            }
            if (d[0] != d[1]) FAIL("defect differs with verbose");
        }
        { // reducible search
            int me = 3 + pick(10), nb = me + pick(5); Toy<U> g0(nb, rnd(), me, pick(2)); g0.ntemp = 2; u64 salt = rnd(); U t1 = rnd(), t2 = rnd(); bool nolsb = pick(3) == 0; bool l2 = pick(2), l1 = pick(3) == 0;
            Toy<U> ref(g0); PG pr(salt); NTL::GF2X f, lc(0, 1); U par = 0; bool ok = true;
            { AlgorithmReducibleRecursionSearch<U> s(ref, pr); if (!s.start(20000)) continue; f = s.getIrreducibleFactor(); }
            long pos = pr.pos; bool warm = pick(4) == 0; u64 wsalt = rnd();
            try { AlgorithmCalculateParity<U, Toy<U> > cp; par = cp.searchParity(ref, f); } catch (...) { ok = false; }
            if (!ok) continue;
            calcCharacteristicPolynomial(&ref, lc); annihilate<U>(&ref, lc / f); u64 sid = ref.id, ss = ref.s;
            for (int verb = 0; verb < 2; verb++) {
                Toy<U> g(g0); PG pg(salt); RL.clear(); RecT a(1, 0, l1, t1), b(2, 1, l2, t2);
                Toy<U> e(ref); e.pat[0] = e.live[0] = (U)(t1 ^ (U)ss); if (!nolsb) e.pat[1] = e.live[1] = (U)(t2 ^ (U)ss); e.rev = false;
                int dl = 0; bool thr = false; try { int veq[64]; AlgorithmEquidistribution<U> sb(e, bit_size<U>()); dl = sb.get_all_equidist(veq); } catch (std::logic_error *x) { thr = true; }
                if (thr) break;
                AlgorithmReducibleRecursionAndTempering<U, Toy<U> > rt(pg);
                if (warm) { Toy<U> w(nb, wsalt, me, 0); w.ntemp = 2; pg = PG(wsalt); try { rt.search(w, a, b, false, null, true); } catch (...) {} null.str(""); RL.clear(); pg = PG(salt); }
                try { if (!rt.search(g, a, b, verb, null, nolsb)) FAIL("reducible search reports failure"); } catch (std::logic_error *x) { if (verb) break; FAIL("the defect computation fails for a generator with a defect of %d", dl); }
                null.str("");
                if (g.id != sid || pg.pos != pos) FAIL("reducible search accepted another parameter (verbose %d)", verb);
                if ((int)RL.size() != (nolsb ? 1 : 2)) FAIL("%d temperings applied, expected %d (verbose %d)", (int)RL.size(), nolsb ? 1 : 2, verb);
                size_t i = 0; if (!nolsb) { if (RL[0].who != 2) FAIL("MSB tempering ran before LSB tempering"); i = 1; } if (RL[i].who != 1) FAIL("the wrong tempering object was used");
                for (size_t j = 0; j < RL.size(); j++) { if (RL[j].s != ss) FAIL("tempering %zu saw state %" PRIx64 ", the projected state is %" PRIx64, j, RL[j].s, ss); if (RL[j].parity != par) FAIL("tempering %zu ran before the parity was installed", j); if (RL[j].rev) FAIL("tempering %zu starts in reverse output mode", j); }
                same(g, e, verb ? "verbose reducible search" : "reducible search");
                if (rt.getIrreducibleFactor() != f) FAIL("reported factor %s, found %s", ps(rt.getIrreducibleFactor()).c_str(), ps(f).c_str());
                if (rt.getParity() != par) FAIL("reported parity %llx, found %llx", (unsigned long long)rt.getParity(), (unsigned long long)par);
                if (rt.weight != NTL::weight(f)) FAIL("weight %d of a factor with %ld terms", rt.weight, NTL::weight(f));
                if (rt.getDelta() != dl) FAIL("reported defect %d, the generator left behind has %d (verbose %d)", rt.getDelta(), dl, verb);
            }
        }
        n++;
    }
    printf("runs %ld\n", n);
}
