// replay driver for C04: random histories of a countdown source against a model
// FLAGS: -fsanitize=undefined
#include "rp.h"
#include <stdexcept>
#include <MTToolBox/Sequential.hpp>
using namespace MTToolBox;
template<typename T> static void run(const char *nm) {
    int W = sizeof(T) * 8;
    T m = (T)rndw(W);
    T s = rnd() % 2 ? (T)(rnd() % 40) : (T)rndw(W);
    Sequential<T> *q; bool dflt = rnd() % 4 == 0;
    if (dflt) { s = (T)-1; q = new Sequential<T>(m); } else q = new Sequential<T>(m, s);
    if (q->bitSize() != W) FAIL("%s bitSize %d", nm, q->bitSize());
    T cur = s; bool done = false;
    std::string h;
    int steps = rnd() % 120;
    for (int i = 0; i < steps; i++) {
        int op = rnd() % 12;
        if (op == 0) { T t = rnd() % 2 ? (T)(rnd() % 5) : (T)rndw(W); q->reseed(t); cur = t; done = false; h += " reseed"; }
        else if (op == 1) { uint32_t t = rnd() % 2 ? rnd() % 5 : (uint32_t)rndw(32); q->seed(t); cur = t; done = false; h += " seed32"; }
        else if (op == 2) { uint64_t t = rnd() % 2 ? rnd() % 5 : rndw(64); q->seed(t); cur = (T)t; done = false; h += " seed64"; }
        else if (op == 3) { Sequential<T> *c = new Sequential<T>(*q); if (rnd() % 2) std::swap(c, q); delete c; h += " copy"; }
        else {
            bool thrown = false; uint64_t v = 0, e; int k = rnd() % 3;
            try { if (k == 0) v = q->next(); else if (k == 1) v = q->getUint32(); else v = q->getUint64(); }
            catch (std::underflow_error &x) { thrown = true; }
            h += k == 0 ? " next" : k == 1 ? " get32" : " get64";
            if (thrown != done) FAIL("%s mask=%#llx start=%#llx: %s at countdown %#llx after%s", nm, (unsigned long long)m, (unsigned long long)s, thrown ? "throws" : "returns after exhaustion", (unsigned long long)cur, h.c_str());
            if (!thrown) {
                e = (uint64_t)(T)(cur ^ m); if (k == 1) e = (uint32_t)e;
                if (v != e) FAIL("%s mask=%#llx start=%#llx: got %#llx expected %#llx after%s", nm, (unsigned long long)m, (unsigned long long)s, (unsigned long long)v, (unsigned long long)e, h.c_str());
                if (cur == 0) done = true; else cur--;
            }
        }
    }
    delete q;
}
// a complete enumeration, 2^16 + 1 values
static void full() {
    uint32_t m = (uint32_t)rnd(); Sequential<uint32_t> q(m, 65536);
    for (int64_t i = 65536; i >= 0; i--) { uint32_t v = q.next(); if (v != ((uint32_t)i ^ m)) FAIL("full enumeration mask=%#x at %lld: %#x", m, (long long)i, v); }
    for (int k = 0; k < 3; k++) { bool t = false; try { q.next(); } catch (std::underflow_error &) { t = true; } if (!t) FAIL("no exception after the last value"); }
}
int main(int c, char **v) { rp_init(c, v); full(); long n = 0; while (time_left()) { run<uint32_t>("uint32"); run<uint64_t>("uint64"); n++; } printf("histories %ld\n", n); return 0; }
