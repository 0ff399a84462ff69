// replay driver for C23: parameter setup
// FLAGS: -DUSE_SHA -fsanitize=undefined,address -fno-sanitize=vptr
// VARIANT: -DGEN=1
// VARIANT: -DGEN=2
// VARIANT: -DGEN=3
// VARIANT: -DGEN=4
// VARIANT: -DGEN=5
// VARIANT: -DGEN=6
// VARIANT: -DGEN=7
// VARIANT: -DGEN=8
// VARIANT: -DGEN=9
// VARIANT: -DGEN=10
// VARIANT: -DGEN=11
#include "gens.h"
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    while (time_left()) {
        std::unique_ptr<G> a(blank()); RndPG p;
        if (rnd() % 4 == 0) { RndPG q; params(*a, q); }
        random_state(*a); View o = view(*a);
#if GEN == 11
        bool fx = rnd() % 3 == 0; int fv = 1 + rnd() % 51; a->setFixed(fx); if (fx || rnd() & 1) a->setFixedSL1(fv);
#endif
        a->setUpParam(p); std::vector<uint64_t>& L = p.log;
#define CHK(cond, what) do { if (!(cond)) { std::string s; char bb[32]; for (auto x : L) { snprintf(bb, 32, " %" PRIx64, x); s += bb; } FAIL("%s setUpParam: %s; %s; draws%s", GN, what, pstr(*a).c_str(), s.c_str()); } } while (0)
        CHK(same(view(*a), o), "state changed");
#if GEN == 2
        CHK(L.size() == 1 && a->a == (L[0] & 31) && a->b == (L[0] >> 5 & 31) && a->c == (L[0] >> 10 & 31), "shifts are not the bit fields of the draw");
#elif GEN == 3
        CHK(L.size() == 1 && a->c == (L[0] & 31) && a->b == (L[0] >> 5 & 31) && a->a == (L[0] >> 10 & 31) && a->pat == (L[0] >> 15 & 7), "shifts/pattern are not the bit fields of the draw");
#elif GEN == 5
        uint32_t num = L[0], wk = (num ^ (num << 15) ^ (num << 23)) << 1, m1, m2, id = a->param.id, t = a->param.tmat; a->get_mat(&m1, &m2);
        uint32_t e1 = (wk & 0xffff0000u) | (id & 0xffff), e2 = (wk & 0xffff) | (id & 0xffff0000u); e1 ^= e1 >> 19; e2 ^= e2 << 18; e2 ^= 1;
        CHK(L.size() == 1 && m1 == e1 && m2 == e2 && t == 0, "mat1/mat2/tmat");
        uint32_t u1 = m1 ^ (m1 >> 19), u2 = (m2 ^ 1) ^ ((m2 ^ 1) << 18); 
        CHK(((u1 & 0xffff) | (u2 & 0xffff0000u)) == id, "id not carried");
#elif GEN == 7
        CHK(L.size() == 2 && a->pos >= 2 && a->pos < a->size && (uint32_t)a->pos == (uint32_t)L[0] % (uint32_t)(a->size - 2) + 2, "pos");
        CHK(a->mata == (a->id >= 0 ? (((uint32_t)L[1] & 0xffff0000u) | ((uint32_t)a->id & 0xffffu)) : (uint32_t)L[1]), "mata");
#elif GEN == 8
        { int ss = a->param.mexp / 32 + 1, f = 1; while (2 * f <= ss) f *= 2; int lo = 3, hi = ss > 100 ? ss - f - 1 : ss / 2 - 1;
        CHK(L.size() == 5, "number of draws");
        CHK(a->param.pos >= lo && a->param.pos <= hi && a->param.pos == (int)((uint32_t)L[0] % (uint32_t)(hi - lo + 1)) + lo, "pos");
        CHK(a->param.sh1 == 13 && a->param.sh2 == 4, "shifts");
        uint32_t id = a->param.id;
        for (int i = 0; i < 4; i++) { uint32_t t = (uint32_t)L[1 + i]; if ((t & 15) == 1u << i) t ^= 1u << i; if (i == 2) t = (t & 0xfff0000fu) ^ ((id << 4) & 0x000ffff0u); if (i == 3) t = (t & 0xffffu) ^ (id & 0xffff0000u);
            CHK(a->param.tbl[i] == t, "tbl"); CHK((a->param.tbl[i] & 15) != 1u << i, "degenerate table row"); }
        for (int i = 0; i < 16; i++) { uint32_t t = 0; for (int k = 0; k < 4; k++) if (i >> k & 1) t ^= a->param.tbl[k]; CHK(a->param.p[i] == t, "recursion table not linear"); }
        for (int i = 0; i < 4; i++) a->setTemperingPattern(~0u, (uint32_t)rndw(32), i);
        a->setUpTempering();
        for (int i = 0; i < 16; i++) { uint32_t t = 0; for (int k = 0; k < 4; k++) if (i >> k & 1) t ^= a->param.tmp_tbl[k]; CHK(a->param.tp[i] == t, "tempering table not linear"); } }
#elif GEN == 9
        CHK(L.size() == 2 && a->pos >= 0 && a->pos < a->size && (uint64_t)a->pos == L[0] % (uint64_t)a->size && a->mata == L[1], "pos/mata");
#elif GEN == 10
        { auto& q = a->param; CHK(q.pos1 >= 1 && q.pos1 < a->size - 1 && q.sl1 >= 1 && q.sl1 <= 31 && q.sr1 >= 1 && q.sr1 <= 31, "ranges");
        CHK((q.sl2 == 1 || q.sl2 == 3 || q.sl2 == 5 || q.sl2 == 7) && (q.sr2 == 1 || q.sr2 == 3 || q.sr2 == 5 || q.sr2 == 7), "byte shifts");
        CHK(L.size() == 13 && (uint32_t)q.pos1 == (uint32_t)L[0] % (uint32_t)(a->size - 2) + 1 && q.sl1 == L[1] % 31 + 1 && q.sl2 == (L[2] % 4) * 2 + 1 && q.sr1 == L[3] % 31 + 1 && q.sr2 == (L[4] % 4) * 2 + 1, "mapping");
        CHK(q.msk1 == (L[5] | L[6]) && q.msk2 == (L[7] | L[8]) && q.msk3 == (L[9] | L[10]) && q.msk4 == (L[11] | L[12]), "masks"); }
#elif GEN == 11
        { auto& q = a->param; size_t k = 0; const uint64_t M = 0xfffffffffffffULL;
        CHK(q.pos1 >= 1 && q.pos1 < a->size - 1 && (uint64_t)q.pos1 == L[k] % (uint64_t)(a->size - 2) + 1, "pos1"); k++;
        if (fx) CHK(q.sl1 == fv, "fixed sl1"); else { CHK(q.sl1 >= 1 && q.sl1 <= 51 && (uint64_t)q.sl1 == L[k] % 51 + 1, "sl1"); k++; }
        CHK(L.size() == k + 4 && q.msk1 == ((L[k] | L[k + 1]) & M) && q.msk2 == ((L[k + 2] | L[k + 3]) & M), "masks"); }
#else
        CHK(L.empty(), "draws without parameters");
#endif
        { // construction from a Mersenne exponent
#define CC(cond, what) do { if (!(cond)) FAIL("%s constructor (exponent %d): %s", GN, m, what); } while (0)
#if GEN >= 7
            static const int ms[] = {521, 607, 1279, 2203, 3217, 4253}; int m = ms[rnd() % 6];
#endif
#if GEN == 7
            int id = (int)rndw(16), pos = 2 + rnd() % 10; uint32_t ma = rndw(32), mb = rndw(32), mc = rndw(32); bool full = rnd() & 1;
            std::unique_ptr<G> gp(full ? new G(m, id, pos, ma, mb, mc, (uint32_t)rnd()) : new G(m, id, (uint32_t)rnd())); G& g = *gp; int N = m / 32 + 1; uint32_t um = 0xffffffffu << (32 * N - m);
            CC(g.size == N && g.mexp == m && g.bitSize() == m, "size"); CC(g.upper_mask == um && g.lower_mask == ~um, "masks"); CC(g.id == id && !g.reverse && g.index >= 0 && g.index < N, "id/mode");
            if (full) CC(g.pos == pos && g.mata == ma && g.maskb == mb && g.maskc == mc, "parameters"); else CC(!g.maskb && !g.maskc, "tempering");
#elif GEN == 8
            uint32_t id = (uint32_t)rndw(32); G g(m, id); int N = m / 32 + 1;
            CC(g.state_size == N && g.param.mexp == m, "size"); CC(g.param.mask == 0xffffffffu << (32 * N - m), "mask"); CC(g.param.id == id && !g.reverse_bit_flag && g.idx >= 0 && g.idx < N, "id/mode");
#elif GEN == 9
            uint64_t ma = rnd(), mb = rnd(), mc = rnd(); int pos = rnd() % 8, f = rnd() % 3; std::unique_ptr<G> gp(f == 0 ? new G(m, rnd()) : f == 1 ? new G(m, pos, ma, rnd()) : new G(m, pos, ma, mb, mc, rnd())); G& g = *gp; int N = m / 64 + 1;
            CC(g.size == N && g.mexp == m && g.parity == 0 && !g.reverse, "size"); if (f) CC(g.pos == pos && g.mata == ma, "parameters"); if (f == 2) CC(g.maskb == mb && g.maskc == mc, "masks"); else CC(!g.maskb && !g.maskc, "masks");
#elif GEN == 10
            G g(m); CC(g.size == m / 128 + 1 && g.start_mode == 0 && g.weight_mode == 4 && !g.reverse_bit_flag && g.param.mexp == m, "size/modes");
#elif GEN == 11
            G g(m); CC(g.size == (m - 128) / 104 + 1 && g.start_mode == 0 && g.weight_mode == 2 && g.param.mexp == m, "size/modes");
#endif
        }
        // stepping is well defined (sanitizer) and stays inside the state
        for (int k = 0; k < 4; k++) a->generate();
        n++;
    }
    printf("%s runs %ld\n", GN, n);
}
