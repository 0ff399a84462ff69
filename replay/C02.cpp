// replay driver for C02: MersenneTwister against a transcription of mt19937ar
// FLAGS: -fsanitize=undefined,address -fno-sanitize=vptr
#include "rp.h"
#include <MTToolBox/MersenneTwister.hpp>
#include <memory>
struct Ref {
    uint32_t m[624]; int p;
    void init(uint32_t s) { m[0] = s; for (int i = 1; i < 624; i++) m[i] = 1812433253u * (m[i - 1] ^ (m[i - 1] >> 30)) + i; p = 624; }
    void arr(const std::vector<uint32_t>& k) {
        init(19650218u); int i = 1, j = 0, n = (int)k.size();
        for (int c = n > 624 ? n : 624; c; c--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 30)) * 1664525u)) + k[j] + j; i++; j++; if (i >= 624) { m[0] = m[623]; i = 1; } if (j >= n) j = 0; }
        for (int c = 623; c; c--) { m[i] = (m[i] ^ ((m[i - 1] ^ (m[i - 1] >> 30)) * 1566083941u)) - i; i++; if (i >= 624) { m[0] = m[623]; i = 1; } }
        m[0] = 0x80000000u; p = 624;
    }
    uint32_t next() {
        if (p >= 624) { for (int i = 0; i < 624; i++) { uint32_t y = (m[i] & 0x80000000u) | (m[(i + 1) % 624] & 0x7fffffffu); m[i] = m[(i + 397) % 624] ^ (y >> 1) ^ ((y & 1) ? 0x9908b0dfu : 0); } p = 0; }
        uint32_t y = m[p++]; y ^= y >> 11; y ^= (y << 7) & 0x9d2c5680u; y ^= (y << 15) & 0xefc60000u; return y ^ (y >> 18);
    }
};
static std::vector<uint32_t> key() { std::vector<uint32_t> k(pick(4) == 0 ? 600 + pick(60) : pick(8) == 0 ? 1 + pick(3000) : 1 + pick(40)); for (auto& x : k) x = pick(4) ? (uint32_t)rnd() : 0; return k; }
static std::string str() { std::string s; int n = 1 + (pick(5) == 0 ? pick(900) : pick(20)); for (int i = 0; i < n; i++) s += (char)(1 + pick(255)); return s; }
static std::vector<uint32_t> chars(const std::string& s) { std::vector<uint32_t> k; for (char c : s) k.push_back((uint32_t)c); return k; }
int main(int c, char **v) {
    rp_init(c, v); long n = 0;
    { MTToolBox::MersenneTwister a; Ref r; r.init(5489u); for (int i = 0; i < 3000; i++) if (a.next() != r.next()) FAIL("default constructor: output %d", i); }
    while (time_left()) {
        Ref r; std::unique_ptr<MTToolBox::MersenneTwister> a; std::string h;
        for (int seg = 0; seg < 3; seg++) {
            int how = pick(3); uint32_t s = (uint32_t)(pick(6) ? rnd() : pick(3)); std::vector<uint32_t> k = key(); std::string t = str();
            uint64_t s64 = pick(2) ? s : (rnd() << 32 | s);
            if (how == 0) { r.init(s); if (!a) a.reset(new MTToolBox::MersenneTwister(s)); else a->seed(s64); }
            else if (how == 1) { r.arr(k); if (!a || pick(3) == 0) a.reset(new MTToolBox::MersenneTwister(k.data(), (int)k.size())); else a->seed(k.data(), (int)k.size()); }
            else { r.arr(chars(t)); if (!a || pick(3) == 0) a.reset(new MTToolBox::MersenneTwister(t)); else a->seed(t); }
            char b[99]; snprintf(b, 99, " %s(%" PRIx64 ", len %d)", how == 0 ? "seed" : how == 1 ? "array" : "string", how == 0 ? s64 : how == 1 ? (uint64_t)k[0] : (uint64_t)(unsigned char)t[0], how == 1 ? (int)k.size() : how == 2 ? (int)t.size() : 0); h += b;
            int m = pick(4) == 0 ? 5000 : 1 + pick(2000);
            for (int i = 0; i < m; i++) {
                int op = pick(3);
                if (op == 2) { uint64_t e = (uint64_t)r.next() << 32; e |= r.next(); uint64_t g = a->getUint64(); if (e != g) FAIL("history%s: draw %d (64 bit) is %" PRIx64 ", MT19937 gives %" PRIx64, h.c_str(), i, g, e); }
                else { uint32_t e = r.next(), g = op ? a->getUint32() : a->next(); if (e != g) FAIL("history%s: draw %d is %x, MT19937 gives %x", h.c_str(), i, g, e); }
                n++;
            }
        }
    }
    printf("draws %ld\n", n);
}
