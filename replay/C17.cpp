// replay driver for C17: partial bit pattern tempering
// VARIANT: -DU=uint32_t -DINST=32,1,23,6,false -DNP=1 -DTRY=23 -DSTEP=6 -DLSB=0
// VARIANT: -DU=uint32_t -DINST=32,4,23,5,false -DNP=4 -DTRY=23 -DSTEP=5 -DLSB=0
// VARIANT: -DU=uint32_t -DINST=32,1,9,5,true -DNP=1 -DTRY=9 -DSTEP=5 -DLSB=1
// VARIANT: -DU=uint32_t -DINST=32,4,9,5,true -DNP=4 -DTRY=9 -DSTEP=5 -DLSB=1
// VARIANT: -DU=uint64_t -DINST=64,2,63,6,false -DNP=2 -DTRY=63 -DSTEP=6 -DLSB=0
#include "toy.h"
enum { W = sizeof(U) * 8 };
typedef AlgorithmPartialBitPattern<U, INST> PBP;
static int defect(Toy<U>& g) { int veq[64]; AlgorithmEquidistribution<U> a(g, W); return a.get_all_equidist(veq); }
static int pc(U x) { return __builtin_popcountll((u64)x); }
int main(int c, char **v) {
    rp_init(c, v); Mute q; long n = 0;
    while (time_left()) {
        int nb = 3 + pick(14); Toy<U> g(nb, rnd(), 0, pick(4)); g.ntemp = NP; g.lazy = pick(2); g.s = rndbits(nb); if (!g.s) g.s = 1;
        for (int i = 0; i < NP; i++) { g.sh[i] = 1 + pick(W - 1); if (pick(2)) { g.pat[i] = (U)rnd(); } } g.setUpTempering(); g.rev = pick(2);
        PBP st; if (st.isLSBTempering() != (bool)LSB) FAIL("isLSBTempering is %d", st.isLSBTempering());
        // one window
        { Toy<U> a(g); a.rev = LSB; int p = (pick((TRY + STEP - 1) / STEP)) * STEP, hi = p + STEP > TRY ? TRY : p + STEP, slot = pick(NP); Toy<U> b(a);
          st.search_best_temper(a, p, slot, hi, pick(4) == 0);
          U mask = 0; for (int i = p; i < hi; i++) mask |= (U)1 << (LSB ? i : W - 1 - i);
          for (int i = 0; i < NP; i++) if ((a.pat[i] ^ b.pat[i]) & (i == slot ? (U)~mask : (U)~(U)0)) FAIL("window [%d,%d) slot %d: parameter %d changed from %llx to %llx outside the window", p, hi, slot, i, (unsigned long long)b.pat[i], (unsigned long long)a.pat[i]);
          for (int i = 0; i < NP; i++) if (a.live[i] != a.pat[i]) FAIL("window [%d,%d) slot %d: parameter %d is %llx but %llx is in effect", p, hi, slot, i, (unsigned long long)a.pat[i], (unsigned long long)a.live[i]);
          int d = defect(a); U x = a.pat[slot] & mask, y = 0;
          do { Toy<U> t(b); t.setTemperingPattern(mask, y, slot); t.setUpTempering(); int e = defect(t);
               if (e < d) FAIL("window [%d,%d) slot %d: pattern %llx kept with defect %d, pattern %llx has %d", p, hi, slot, (unsigned long long)x, d, (unsigned long long)y, e);
               if (e == d && pc(y) > pc(x)) FAIL("window [%d,%d) slot %d: pattern %llx kept, %llx has the same defect %d and more one bits", p, hi, slot, (unsigned long long)x, (unsigned long long)y, d);
               y = (y - mask) & mask; } while (y);
        }
        // whole search
        { Toy<U> a(g), b(g); a.hist.clear(); b.hist.clear(); st(a, pick(4) == 0); b.rev = LSB;
          for (int p = 0; p < TRY; p += STEP) for (int i = 0; i < NP; i++) st.search_best_temper(b, p, i, p + STEP > TRY ? TRY : p + STEP, false);
          if (a.rev) FAIL("reverse output left on");
          if (a.s != g.s || a.A != g.A) FAIL("the search changes more than the tempering parameters");
          for (int i = 0; i < NP; i++) if (a.pat[i] != b.pat[i] || a.live[i] != b.live[i]) FAIL("parameter %d is %llx, expected %llx", i, (unsigned long long)a.pat[i], (unsigned long long)b.pat[i]);
        }
        n++;
    }
    printf("runs %ld\n", n);
}
