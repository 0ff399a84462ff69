// replay driver for C18: best bits tempering
// VARIANT: -DU=uint32_t -DNPAR=1
// VARIANT: -DU=uint32_t -DNPAR=2
// VARIANT: -DU=uint64_t -DNPAR=2
// VARIANT: -DU=uint32_t -DNPAR=3
// VARIANT: -DU=uint64_t -DNPAR=7
#include "toy.h"
enum { W = sizeof(U) * 8, NP = NPAR * (NPAR + 1) / 2 };
typedef std::vector<U> PV;
static int defect(Toy<U> g, const PV& x, int v) { for (int i = 0; i < NPAR; i++) g.setTemperingPattern(~(U)0, x[i], i); g.setUpTempering(); int veq[64]; AlgorithmEquidistribution<U> a(g, v); return a.get_all_equidist(veq); }
// specification of the candidate with pattern pat at level v
static PV cand(const PV& p, int pat, int v, const int *sh, bool& ok) {
    PV r = p; ok = true; int b = NP - 1; long s = 0;
    for (int row = 0; row <= NPAR; row++) { for (int k = row ? row - 1 : 0; k < NPAR; k++, b--) { if (b < 0) return r; bool on = (pat >> b) & 1; if (on && v + sh[k] + s > W) ok = false;
            long t = W - 1 - v - s; if (t > 0) { if (on) r[k] |= (U)1 << t; else r[k] &= ~((U)1 << t); } }
        s += sh[NPAR - 1 - row]; }
    return r;
}
static PV pv(const U *x) { return PV(x, x + NPAR); }
static std::string str(const PV& x) { std::stringstream s; s << std::hex; for (size_t i = 0; i < x.size(); i++) s << (i ? "," : "") << (u64)x[i]; return s.str(); }
int main(int c, char **v_) {
    rp_init(c, v_); Mute q; long n = 0;
    while (time_left()) {
        int sh[8]; for (int i = 0; i < NPAR; i++) sh[i] = pick(4) ? pick(W / 2) : pick(W + 1);
        int limit = NPAR > 3 ? 0 : NPAR == 1 ? pick(12) : NPAR == 2 ? pick(4) : pick(2); AlgorithmBestBits<U> st(W, sh, NPAR, limit);
        if (st.isLSBTempering()) FAIL("isLSBTempering is %d", 1);
        for (int t = 0; t < 200; t++) {          // make_pattern and inRange
            temper_params<U> a(NPAR), b(NPAR); for (int i = 0; i < NPAR; i++) { a.param[i] = (U)rnd(); b.param[i] = (U)rnd(); } PV p = pv(b.param); int pat = pick(1 << NP), v = pick(W); bool ok; PV want = cand(p, pat, v, sh, ok);
            if (st.inRange(pat, v) != ok) FAIL("inRange(%x,%d) is %d", pat, v, !ok);
            st.make_pattern(a, pat, v, b); if (pv(a.param) != want) FAIL("make_pattern(%x,%d) of %s gives %s, expected %s", pat, v, str(p).c_str(), str(pv(a.param)).c_str(), str(want).c_str());
            if (pv(b.param) != p) FAIL("make_pattern(%x,%d) changes the parent", pat, v); }
        if (NPAR > 3) { n++; continue; }
        int nb = 3 + pick(8); Toy<U> g(nb, rnd(), 0, pick(4)); g.ntemp = NPAR; g.rot = pick(2); g.lazy = pick(2); g.s = rndbits(nb); if (!g.s) g.s = 1;
        for (int i = 0; i < NPAR; i++) { g.sh[i] = pick(2) ? 1 + pick(W - 1) : 1 + pick(4); if (pick(2)) g.pat[i] = (U)rnd(); } g.setUpTempering();
        {   // one level
            Toy<U> a(g); int v = pick(4) ? pick(4) : pick(W); if (v > 20) v = pick(20); std::vector<std::shared_ptr<temper_params<U> > > cur; temper_params<U> p(NPAR); for (int i = 0; i < NPAR; i++) p.param[i] = pick(2) ? (U)rnd() : 0; PV P = pv(p.param);
            int pre = pick(3); for (int i = 0; i < pre; i++) { cur.push_back(std::shared_ptr<temper_params<U> >(new temper_params<U>(NPAR))); cur.back()->delta = -5 - i; }
            st.search_best_temper(a, v, p, cur, pick(4) == 0); int best = 1 << 30; std::map<PV, int> all;
            for (int pat = 0; pat < 1 << NP; pat++) { bool ok; PV x = cand(P, pat, v, sh, ok); if (!ok) continue; int d = defect(g, x, v + 1); all[x] = d; if (d < best) best = d; }
            if ((int)cur.size() <= pre) FAIL("level %d: no candidate", v);
            for (int i = 0; i < pre; i++) if (cur[i]->delta != -5 - i) FAIL("level %d: an earlier candidate is lost", v);
            std::set<PV> got; int last = 1 << 30; for (size_t i = pre; i < cur.size(); i++) { PV x = pv(cur[i]->param); if (!all.count(x) || all[x] != cur[i]->delta) FAIL("level %d: candidate %s with defect %d is not a choice of the level", v, str(x).c_str(), cur[i]->delta); got.insert(x); last = cur[i]->delta; }
            (void)last; for (std::map<PV, int>::iterator i = all.begin(); i != all.end(); ++i) if (i->second == best && !got.count(i->first)) FAIL("level %d: choice %s of least defect %d is not a candidate", v, str(i->first).c_str(), best);
            if (a.s != g.s || a.A != g.A) FAIL("level %d: more than the tempering parameters change", v);
        }
        {   // whole search
            Toy<U> a(g); a.rev = pick(2); st(a, pick(4) == 0);
            std::vector<PV> par(1, PV(NPAR, 0)); std::map<PV, int> memo;
            for (int v = 0; v < limit; v++) { int best = 1 << 30; std::vector<PV> nx; memo.clear();
                for (size_t i = 0; i < par.size(); i++) for (int pat = 0; pat < 1 << NP; pat++) { bool ok; PV x = cand(par[i], pat, v, sh, ok); if (!ok) continue; if (!memo.count(x)) memo[x] = defect(g, x, v + 1); int d = memo[x];
                    if (d < best) { best = d; nx.clear(); } if (d == best) nx.push_back(x); }
                std::sort(nx.begin(), nx.end()); nx.erase(std::unique(nx.begin(), nx.end()), nx.end()); par = nx; }
            PV x = pv(a.pat), y = pv(a.live);
            if (std::find(par.begin(), par.end(), x) == par.end()) FAIL("limit %d: installed parameters %s are not among the survivors of the last level (%d of them, first %s)", limit, str(x).c_str(), (int)par.size(), str(par[0]).c_str());
            if (x != y) FAIL("limit %d: parameters %s but %s is in effect", limit, str(x).c_str(), str(y).c_str());
            if (a.rev) FAIL("limit %d: reverse output left on", limit);
            if (a.s != g.s || a.A != g.A) FAIL("limit %d: the search changes more than the tempering parameters", limit);
        }
        n++;
    }
    printf("runs %ld\n", n);
}
