// replay driver for C03: MersenneTwister64 against a transcription of mt19937-64
// FLAGS: -fsanitize=undefined,address -fno-sanitize=vptr
#include "rp.h"
#include <MTToolBox/MersenneTwister64.hpp>
#include <memory>
struct Ref {
    uint64_t m[312]; int p;
    void init(uint64_t s) { m[0] = s; for (int i = 1; i < 312; i++) m[i] = 6364136223846793005ULL * (m[i - 1] ^ (m[i - 1] >> 62)) + i; p = 312; }
    void arr(const std::vector<uint64_t>& k) {
        init(19650218ULL); int i = 1, j = 0, n = (int)k.size();
        for (int c = n > 312 ? n : 312; c; c--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 62)) * 3935559000370003845ULL)) + k[j] + j; i++; j++; if (i >= 312) { m[0] = m[311]; i = 1; } if (j >= n) j = 0; }
        for (int c = 311; c; c--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 62)) * 2862933555777941757ULL)) - i; i++; if (i >= 312) { m[0] = m[311]; i = 1; } }
        m[0] = 1ULL << 63; p = 312;
    }
    uint64_t next() {
        if (p >= 312) { for (int i = 0; i < 312; i++) { uint64_t y = (m[i] & 0xFFFFFFFF80000000ULL) | (m[(i + 1) % 312] & 0x7fffffffULL); m[i] = m[(i + 156) % 312] ^ (y >> 1) ^ ((y & 1) ? 0xB5026F5AA96619E9ULL : 0); } p = 0; }
        uint64_t x = m[p++]; x ^= (x >> 29) & 0x5555555555555555ULL; x ^= (x << 17) & 0x71D67FFFEDA60000ULL; x ^= (x << 37) & 0xFFF7EEE000000000ULL; return x ^ (x >> 43);
    }
};
static std::vector<uint64_t> key() { std::vector<uint64_t> k(pick(4) == 0 ? 290 + pick(40) : pick(8) == 0 ? 1 + pick(3000) : 1 + pick(40)); for (auto& x : k) x = pick(4) ? (uint64_t)rnd() : 0; return k; }
static std::string str() { std::string s; int n = 1 + (pick(5) == 0 ? pick(900) : pick(20)); for (int i = 0; i < n; i++) s += (char)(1 + pick(255)); return s; }
static std::vector<uint64_t> chars(const std::string& s) { std::vector<uint64_t> k; for (char c : s) k.push_back((uint64_t)c); return k; }
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    { MTToolBox::MersenneTwister64 a; Ref r; r.init(19650218ULL); for (int i = 0; i < 3000; i++) if (a.next() != r.next()) FAIL("default constructor: output %d", i); }
    while (time_left()) {
        Ref r; std::unique_ptr<MTToolBox::MersenneTwister64> a; std::string h;
        for (int seg = 0; seg < 3; seg++) {
            int how = pick(3); uint64_t s = pick(6) ? rnd() : pick(3); std::vector<uint64_t> k = key(); std::string t = str();
            uint64_t s64 = s;
            if (how == 0) { r.init(s); if (!a) a.reset(new MTToolBox::MersenneTwister64(s)); else a->seed(s64); }
            else if (how == 1) { r.arr(k); if (!a || pick(3) == 0) a.reset(new MTToolBox::MersenneTwister64(k.data(), (int)k.size())); else a->seed(k.data(), (int)k.size()); }
            else { r.arr(chars(t)); if (!a || pick(3) == 0) a.reset(new MTToolBox::MersenneTwister64(t)); else a->seed(t); }
            char b[99]; snprintf(b, 99, " %s(%" PRIx64 ", len %d)", how == 0 ? "seed" : how == 1 ? "array" : "string", how == 0 ? s64 : how == 1 ? (uint64_t)k[0] : (uint64_t)(unsigned char)t[0], how == 1 ? (int)k.size() : how == 2 ? (int)t.size() : 0); h += b;
            int m = pick(4) == 0 ? 5000 : 1 + pick(2000);
            for (int i = 0; i < m; i++) {
                int op = pick(3);
                uint64_t e = r.next();
                if (op == 2) { uint32_t g = a->getUint32(); if ((uint32_t)(e >> 32) != g) FAIL("history%s: draw %d (32 bit) is %x, MT19937-64 gives %" PRIx64, h.c_str(), i, g, e); }
                else { uint64_t g = op ? a->getUint64() : a->next(); if (e != g) FAIL("history%s: draw %d is %" PRIx64 ", MT19937-64 gives %" PRIx64, h.c_str(), i, g, e); }
                n++;
            }
        }
    }
    printf("draws %ld\n", n);
}
