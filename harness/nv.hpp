// Shared parts of the conformance drivers: random numbers, guarded buffers, NDJSON events.
#ifndef NV_HPP
#define NV_HPP
#include <sys/mman.h>
#include <signal.h>
#include <setjmp.h>
#include <unistd.h>
#include <stdint.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <limits>
#include <string>
#include <vector>
#include <algorithm>

namespace nv {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    unsigned below(unsigned n) { return (unsigned)(next() % n); }
    int range(int lo, int hi) { return lo + (int)below((unsigned)(hi - lo + 1)); }
    bool chance(unsigned percent) { return below(100) < percent; }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
};

// ---- events: 32-bit words as signed integers, doubles as two words (high, low) ----
inline void word(std::string & o, float f) { int32_t w; memcpy(&w, &f, 4); o += std::to_string(w); }
inline void word(std::string & o, double f) {
    uint64_t w; memcpy(&w, &f, 8);
    o += std::to_string((int32_t)(w >> 32)); o += ','; o += std::to_string((int32_t)(uint32_t)w);
}
template <class F> std::string words(const F * p, size_t n) {
    std::string o = "[";
    for (size_t i = 0; i != n; ++i) { if (i) o += ','; word(o, p[i]); }
    return o + "]";
}
template <class F> std::string words(std::vector<F> const & v) { return words(v.data(), v.size()); }
template <class F> std::string word1(F f) { return words(&f, 1); }

template <class F> struct Ty;
template <> struct Ty<float>  { typedef uint32_t bits; static const char * name() { return "f"; } };
template <> struct Ty<double> { typedef uint64_t bits; static const char * name() { return "d"; } };
template <class F> F frombits(typename Ty<F>::bits b) { F f; memcpy(&f, &b, sizeof f); return f; }
template <class F> typename Ty<F>::bits tobits(F f) { typename Ty<F>::bits b; memcpy(&b, &f, sizeof b); return b; }

// ---- values ----
enum Class { ANY, AUDIO, MIXED, INTS, SPECIAL, FINITE, BITS, NCLASS };

template <class F> F special(Rng & r) {
    typedef std::numeric_limits<F> L;
    const F big = std::ldexp(F(1), L::digits - 1);
    const F t[] = { F(0), -F(0), F(1), F(-1), F(0.5), F(-0.5), F(0.25), F(1.5), F(-1.5), F(2.5), F(-2.5), F(2), F(-2), F(3),
        L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::min() - L::denorm_min(), -(L::min() - L::denorm_min()),
        L::min() + L::denorm_min(), L::max(), -L::max(), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(),
        L::epsilon(), 1 + L::epsilon(), 1 - L::epsilon() / 2, big, big + 1, big - 1, big - F(0.5), big / 2 + F(0.5), -big - 1, -big / 2 - F(0.5),
        2 * big, 2 * big + 2, -2 * big, F(2147483648.0), F(-2147483648.0), F(4294967296.0), F(9.3e18), F(-9.3e18), F(1e19), F(-1e19), F(1e30), F(-1e30), F(1e-30),
        F(0.49999997f), F(0.1), F(-0.1), F(0.7), std::sqrt(L::max()), std::sqrt(L::min()) };
    return t[r.below(sizeof t / sizeof t[0])];
}
template <class F> F bits(Rng & r) { return frombits<F>((typename Ty<F>::bits)r.next()); }
// random significand, exponent within +-range
template <class F> F expo(Rng & r, int lo, int hi) {
    F m = F(1) + std::ldexp(F(r.next() >> (64 - (std::numeric_limits<F>::digits - 1))), 1 - std::numeric_limits<F>::digits);
    m = std::ldexp(m, r.range(lo, hi));
    return r.chance(50) ? m : -m;
}
template <class F> F value(Rng & r, int cls) {
    switch (cls) {
    case AUDIO:   return F(r.unit() * 2 - 1);
    case MIXED:   return expo<F>(r, -8, 8);
    case INTS:    return F(r.range(-64, 64)) / F(1 << r.below(4));
    case SPECIAL: return special<F>(r);
    case BITS:    return bits<F>(r);
    case FINITE:  { F f; do f = r.chance(30) ? special<F>(r) : bits<F>(r); while (!(std::fabs(f) <= std::numeric_limits<F>::max())); return f; }
    default:      return value<F>(r, 1 + (int)r.below(NCLASS - 1));
    }
}

// ---- guarded memory: [no access][slack pages][no access]; every byte outside of the buffer is watched ----
struct Guarded {
    unsigned char * map; size_t maplen;     // accessible part
    unsigned char * data; size_t len;       // the buffer
    unsigned char * shadow;                 // expected contents of the accessible part
    // at_end: the buffer ends at the inaccessible page; otherwise it starts right behind one
    void alloc(size_t bytes, bool at_end, size_t skew, Rng & r) {
        const size_t pg = 4096;
        maplen = (bytes + skew + pg - 1) / pg * pg;
        unsigned char * base = (unsigned char *)mmap(0, maplen + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) { perror("mmap"); _exit(3); }
        map = base + pg;
        mprotect(map, maplen, PROT_READ | PROT_WRITE);
        len = bytes;
        data = at_end ? map + maplen - bytes - skew : map + skew;
        shadow = (unsigned char *)malloc(maplen);
        for (size_t i = 0; i != maplen; ++i) map[i] = (unsigned char)r.next();
        memcpy(shadow, map, maplen);
    }
    void release() { munmap(map - 4096, maplen + 8192); free(shadow); }
    void sync() { memcpy(shadow, map, maplen); }
    // number of bytes that changed outside of [lo, hi) (offsets into the buffer)
    size_t stray(size_t lo, size_t hi) const {
        size_t a = (size_t)(data - map) + lo, b = (size_t)(data - map) + hi, cnt = 0;
        if (!memcmp(map, shadow, a) && !memcmp(map + b, shadow + b, maplen - b)) return 0;
        for (size_t i = 0; i != maplen; ++i) if ((i < a || i >= b) && map[i] != shadow[i]) ++cnt;
        return cnt;
    }
};

// ---- faults become events ----
extern sigjmp_buf fault_jmp;
extern volatile sig_atomic_t fault_armed;
void install_fault_handlers();
#ifdef NV_MAIN
sigjmp_buf fault_jmp;
volatile sig_atomic_t fault_armed = 0;
static void on_fault(int sig) { if (fault_armed) siglongjmp(fault_jmp, sig); signal(sig, SIG_DFL); raise(sig); }
void install_fault_handlers() {
    static char stack[1 << 16];
    stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_fault; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM };
    for (int s : sigs) sigaction(s, &sa, 0);
}
#endif
// runs f; returns 0 or the signal it raised (SIGALRM: did not terminate)
template <class Fn> int guarded(Fn f) {
    int sig = sigsetjmp(fault_jmp, 1);
    if (sig) { fault_armed = 0; alarm(0); return sig; }
    fault_armed = 1; alarm(20);
    f();
    fault_armed = 0; alarm(0);
    return 0;
}

} // namespace nv
#endif
