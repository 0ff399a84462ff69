// VARIANT: -DW128H=<samples/sfmtdc/w128.hpp>
// VARIANT: -DW128H=<samples/dSFMTdc/w128.hpp>
// FLAGS: -fsanitize=undefined -fno-sanitize-recover=undefined
#include "rp.h"
#include <MTToolBox/util.hpp>
#define w128_t sfmt_w128_t
#include W128H
#undef w128_t
using namespace MTToolBox;
template<class T> int pop(T x) { int n = 0; for (int i = 0; i < (int)sizeof(T) * 8; i++) n += (x >> i) & 1; return n; }
template<class T> int low(T x) { int w = sizeof(T) * 8; for (int i = 0; i < w; i++) if ((x >> i) & 1) return w - 1 - i; return -1; }
template<class T> T rev(T x) { T y = 0; int w = sizeof(T) * 8; for (int i = 0; i < w; i++) if ((x >> i) & 1) y |= (T)1 << (w - 1 - i); return y; }
template<class T> void one(T x) {
    const int w = sizeof(T) * 8;
    if (count_bit(x) != pop(x)) FAIL("count_bit(u%d 0x%llx) = %d, expected %d", w, (unsigned long long)x, count_bit(x), pop(x));
    if (calc_1pos(x) != low(x)) FAIL("calc_1pos(u%d 0x%llx) = %d, expected %d", w, (unsigned long long)x, calc_1pos(x), low(x));
}
template<class T> void two(T x) {
    const int w = sizeof(T) * 8;
    one(x);
    if (reverse_bit(x) != rev(x)) FAIL("reverse_bit(u%d 0x%llx) = 0x%llx", w, (unsigned long long)x, (unsigned long long)reverse_bit(x));
    for (int p = 0; p < w; p++) {
        if (getBitOfPos<T>(x, p) != ((x >> p) & 1)) FAIL("getBitOfPos(u%d 0x%llx, %d)", w, (unsigned long long)x, p);
        for (unsigned b = 0; b < 4; b++) {
            T y = x; setBitOfPos<T>(&y, p, b);
            T e = (b & 1) ? (x | ((T)1 << p)) : (x & ~((T)1 << p));
            if (y != e) FAIL("setBitOfPos(u%d 0x%llx, %d, %u) gives 0x%llx", w, (unsigned long long)x, p, b, (unsigned long long)y);
        }
    }
    NTL::vec_GF2 v; v.SetLength(rnd() % 100);
    toGF2Vec<T>(v, x);
    if (v.length() != w) FAIL("toGF2Vec length %ld", v.length());
    for (int i = 0; i < w; i++) if ((NTL::rep(v.get(i)) == 1) != (((x >> (w - 1 - i)) & 1) == 1)) FAIL("toGF2Vec(u%d 0x%llx) element %d", w, (unsigned long long)x, i);
    NTL::vec_GF2 u; u.SetLength(w); for (int i = 0; i < w; i++) u.put(i, (long)((x >> (w - 1 - i)) & 1));
    if (fromGF2Vec<T>(u) != x) FAIL("fromGF2Vec of bits of u%d 0x%llx = 0x%llx", w, (unsigned long long)x, (unsigned long long)fromGF2Vec<T>(u));
    if (isZero<T>(x) != (x == 0)) FAIL("isZero(u%d 0x%llx)", w, (unsigned long long)x);
    T z = x; setZero<T>(z); if (z) FAIL("setZero");
    if (getOne<T>() != 1) FAIL("getOne");
    if (bit_size<T>() != w) FAIL("bit_size");
    // get_range
    int s, e;
    switch (rnd() % 4) { case 0: s = (int)(rnd() % 100); e = s + (int)(rnd() % 64); break; case 1: s = -(int)(rnd() % 1000); e = (int)(rnd() % 1000); break;
    case 2: s = 0; e = 0x7ffffffe - (int)(rnd() % 3); break; default: s = (int)(rnd() % 1000); e = s; }
    int r = get_range<T>(x, s, e); unsigned long long n = (unsigned long long)((long long)e - s + 1);
    long long ex = (long long)s + (long long)((unsigned long long)x % n);
    if (r != ex) FAIL("get_range(u%d %llu, %d, %d) = %d, expected %lld", w, (unsigned long long)x, s, e, r, ex);
    if (x) { T f = floor2p<T>(x); if (pop(f) != 1 || f > x || (x - f) >= f) FAIL("floor2p(u%d %llu) = %llu", w, (unsigned long long)x, (unsigned long long)f); }
    if (int y = (int)(x & 0x7fffffff)) { int f = floor2p<int>(y); if (pop((uint32_t)f) != 1 || f > y || (y - f) >= f) FAIL("floor2p(int %d) = %d", y, f); }
    T src[12], dst[600]; for (int i = 0; i < 12; i++) src[i] = (T)rnd();
    int size = 1 + (int)(rnd() % 600); if (rnd() % 2) size = 16;
    memset(dst, 0, sizeof dst); fill_table<T>(dst, src, size);
    for (int i = 0; i < 600; i++) { T q = 0; if (i < size) for (int k = 0; k < 12; k++) if (i >> k & 1) q ^= src[k];
        if (dst[i] != q) FAIL("fill_table u%d size %d entry %d = 0x%llx, expected 0x%llx", w, size, i, (unsigned long long)dst[i], (unsigned long long)q); }
}
typedef unsigned __int128 U;
static U val(sfmt_w128_t x) { return ((U)x.u64[1] << 64) | x.u64[0]; }
static sfmt_w128_t mk(U x) { sfmt_w128_t w; w.u64[0] = (uint64_t)x; w.u64[1] = (uint64_t)(x >> 64); return w; }
#define H(x) (unsigned long long)((x) >> 64), (unsigned long long)(x)
static void simd(U x, U y) {
    sfmt_w128_t a = mk(x), b = mk(y);
    if (calc_1pos(a) != low(x)) FAIL("calc_1pos(w128 %016llx%016llx) = %d, expected %d", H(x), calc_1pos(a), low(x));
    if (val(reverse_bit(a)) != rev(x)) FAIL("reverse_bit(w128 %016llx%016llx)", H(x));
    if (isZero(a) != (x == 0)) FAIL("isZero(w128 %016llx%016llx)", H(x));
    if (val(a & b) != (x & y) || val(a ^ b) != (x ^ y) || val(~a) != ~x || val(and_mask(a, b)) != (x & y)) FAIL("bitwise operator on w128 %016llx%016llx", H(x));
    sfmt_w128_t c = a; c |= b; if (val(c) != (x | y)) FAIL("|= w128"); c = a; c ^= b; if (val(c) != (x ^ y)) FAIL("^= w128");
    if ((a == b) != (x == y) || !(a == a)) FAIL("== w128");
    { U z = x ^ ((U)1 << (rnd() % 128)); if (mk(z) == a) FAIL("== w128 %016llx%016llx against a one bit change", H(x)); }
    for (int p = 0; p < 128; p++) {
        if (val(a << p) != x << p) FAIL("w128 %016llx%016llx << %d", H(x), p);
        if (val(a >> p) != x >> p) FAIL("w128 %016llx%016llx >> %d", H(x), p);
        if (getBitOfPos(a, p) != (unsigned)((x >> p) & 1)) FAIL("getBitOfPos(w128 %016llx%016llx, %d)", H(x), p);
        for (unsigned q = 0; q < 4; q++) { sfmt_w128_t d = a; setBitOfPos(&d, p, q); U e = (q & 1) ? x | ((U)1 << p) : x & ~((U)1 << p); if (val(d) != e) FAIL("setBitOfPos(w128 %016llx%016llx, %d, %u)", H(x), p, q); }
    }
    for (int n = 0; n <= 128; n++) { U e = n == 0 ? 0 : ~(U)0 << (128 - n); if (val(make_msb_mask(n)) != e) FAIL("make_msb_mask(%d)", n); }
    if (val(getOne<sfmt_w128_t>()) != 1) FAIL("getOne w128");
    sfmt_w128_t z = a; setZero(z); if (val(z) != 0) FAIL("setZero w128");
    if (val(convert<sfmt_w128_t, uint64_t>((uint64_t)x)) != (uint64_t)x || val(convert<sfmt_w128_t, uint32_t>((uint32_t)x)) != (uint32_t)x) FAIL("convert w128");
}
int main(int argc, char **argv) {
    rp_init(argc, argv);
    for (int x = 0; x < 65536; x++) one<uint16_t>((uint16_t)x);
    for (int i = 0; i < 64; i++) { two<uint64_t>(1ULL << i); two<uint64_t>(~(1ULL << i)); if (i < 32) { two<uint32_t>(1U << i); two<uint32_t>(~(1U << i)); } simd((U)1 << i, 0); simd((U)1 << (64 + i), (U)1 << i); }
    simd(0, 0);
    while (time_left()) for (int i = 0; i < 50; i++) { two<uint32_t>((uint32_t)rndw(32)); two<uint64_t>(rndw(64)); simd((U)rndw(64) << 64 | rndw(64), (U)rndw(64) << 64 | rndw(64)); }
    printf("no failing input found\n");
    return 0;
}
