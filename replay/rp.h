// common part of the replay drivers: seeded search for a concrete failing
// input with the real code; FAIL line + exit 1 when one is found
#ifndef RP_H
#define RP_H
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <ctime>
#include <string>
#include <vector>
#include <chrono>
static uint64_t rp_s = 88172645463325252ULL;
static inline uint64_t rnd() { // splitmix64
    uint64_t z = (rp_s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
static inline uint64_t rndw(int w) { // word of w bits with a varied shape
    uint64_t m = w >= 64 ? ~0ULL : (1ULL << w) - 1;
    switch (rnd() % 8) {
    case 0: return 0;
    case 1: return m;
    case 2: return (1ULL << (rnd() % w)) & m;
    case 3: return ((1ULL << (rnd() % w)) - 1) & m;
    case 4: return (rnd() & rnd() & rnd()) & m;
    case 5: return (rnd() << (rnd() % w)) & m;
    case 6: return (rnd() & m) >> (rnd() % w);
    default: return rnd() & m;
    }
}
static inline int pick(int n) { return (int)(rnd() % (uint64_t)n); }
static std::chrono::steady_clock::time_point rp_t0 = std::chrono::steady_clock::now();
static double rp_budget = 20;
static inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - rp_t0).count(); }
static inline bool time_left(double frac = 1.0) { return elapsed() < rp_budget * frac; }
static inline void rp_init(int argc, char **argv) {
    if (argc > 1) rp_s ^= strtoull(argv[1], 0, 10) * 0x2545F4914F6CDD1DULL;
    if (argc > 2) rp_budget = atof(argv[2]);
    setvbuf(stdout, 0, _IOLBF, 0);
}
#ifdef RP_SAFETY_ONLY // C26: a functional difference ends the run and is not counted
#define FAIL(...) do { printf("functional difference: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(0); } while (0)
#else
#define FAIL(...) do { printf("FAIL "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _Exit(1); } while (0)
#endif
#endif
