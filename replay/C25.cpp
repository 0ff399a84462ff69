// replay driver for C25
// FLAGS: -fno-operator-names -fsanitize=undefined
#include "rp.h"
#include <samples/XORSHIFT/xorshift128.c>
typedef uint32_t u;
static u f1(u x) { return (x ^ (x >> 27)) * 1664525u; }
static u f2(u x) { return (x ^ (x >> 27)) * 1566083941u; }
static void ref(const u *a, int n, u *s) {
    int cnt = n + 1 > 8 ? n + 1 : 8; s[0] = s[1] = s[2] = s[3] = 0;
    u r = f1(0); s[1] += r; r += n; s[2] += r; s[0] = r;
    int i = 1;
    for (int j = 0; j < cnt - 1; j++) { r = f1(s[i] ^ s[(i + 1) & 3] ^ s[(i + 3) & 3]); s[(i + 1) & 3] += r; r += (j < n ? a[j] : 0) + i; s[(i + 2) & 3] += r; s[i] = r; i = (i + 1) & 3; }
    for (int j = 0; j < 4; j++) { r = f2(s[i] + s[(i + 1) & 3] + s[(i + 3) & 3]); s[(i + 1) & 3] ^= r; r -= i; s[(i + 2) & 3] ^= r; s[i] = r; i = (i + 1) & 3; }
    if (!(s[0] | s[1] | s[2] | s[3])) { s[0] = ('X' << 16) | 'O'; s[1] = ('R' << 16) | 'S'; s[2] = ('H' << 16) | 'I'; s[3] = ('F' << 16) | 'T'; }
}
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    { xorshift128_t z = {0, 0, 0, 0}; period_certification(&z); if (!(z.x | z.y | z.z | z.w)) FAIL("period_certification leaves the zero state"); }
    while (time_left()) {
        xorshift128_t q; memset(&q, rnd(), sizeof q);
        if (rnd() % 3 == 0) {
            u s = (u)rndw(32); xorshift128_init(&q, s);
            u ar[4]; ar[0] = s; for (int i = 1; i < 8; i++) ar[i & 3] = 1812433253u * (ar[(i - 1) & 3] ^ (ar[(i - 1) & 3] >> 30)) + i;
            if (q.x != ar[0] || q.y != ar[1] || q.z != ar[2] || q.w != ar[3]) FAIL("init(%#x) state %x %x %x %x", s, q.x, q.y, q.z, q.w);
        } else {
            int len = rnd() % 4 ? rnd() % 20 : rnd() % 400; std::vector<u> a(len + 1); for (auto &x : a) x = (u)rndw(32);
            u s[4]; ref(a.data(), len, s); xorshift128_init_by_array(&q, a.data(), len);
            if (q.x != s[0] || q.y != s[1] || q.z != s[2] || q.w != s[3]) FAIL("init_by_array length %d first %#x: state %x %x %x %x expected %x %x %x %x", len, a[0], q.x, q.y, q.z, q.w, s[0], s[1], s[2], s[3]);
        }
        for (int i = 0; i < 16; i++) {
            xorshift128_t o = q; if (rnd() % 4 == 0) { q.x = o.x = (u)rndw(32); q.w = o.w = (u)rndw(32); }
            u t = o.x ^ (o.x << 11); t ^= t >> 7; u w = o.w ^ (o.w << 20) ^ t;
            u r = xorshift128_generate(&q);
            if (r != w || q.w != w || q.x != o.y || q.y != o.z || q.z != o.w) FAIL("generate from %x %x %x %x gives %x expected %x", o.x, o.y, o.z, o.w, r, w);
        }
        n++;
    }
    printf("runs %ld\n", n);
}
