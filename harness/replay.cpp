// Replays behaviours generated from spec/Gen.tla: every call is made on guarded buffers, and afterwards all of
// the memory has to be what the specification prescribes.
// usage: replay PROGRAMS CFG      (programs as tokens, written by bin/check)
#define NV_MAIN
#include "reg.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
#include <fstream>
#include <sstream>
#include <map>
using namespace nv;

static long calls = 0;

template <class F> struct Replay {
    enum { NB = 4, CAP = 64 };
    Guarded g[NB]; F want[NB][CAP]; F peak, sq; std::istringstream in; std::string why;
    Replay(std::string const & line, Rng & r) : peak(0), sq(0), in(line) {
        for (int b = 0; b != NB; ++b) { g[b].alloc(CAP * sizeof(F), r.chance(60), 0, r); memset(want[b], 0, sizeof want[b]); }
    }
    ~Replay() { for (int b = 0; b != NB; ++b) g[b].release(); }
    F * buf(int b) { return (F *)g[b].data; }
    F cell() { long c; in >> c; return F(c) / 2; }
    int num() { int i; in >> i; return i; }
    void expect(int d, int o, int n) { for (int i = 0; i != n; ++i) want[d][o + i] = cell(); }
    bool fail(std::string const & w) { why = w; return false; }
    bool memory(int sig) {
        if (sig) return fail("signal " + std::to_string(sig));
        for (int b = 0; b != NB; ++b) {
            for (int i = 0; i != CAP; ++i) if (!(buf(b)[i] == want[b][i]))
                return fail("buffer " + std::to_string(b) + " element " + std::to_string(i) + " is " + std::to_string((double)buf(b)[i]) + ", prescribed is " + std::to_string((double)want[b][i]));
            if (g[b].stray(0, CAP * sizeof(F))) return fail("memory outside of buffer " + std::to_string(b) + " was modified");
        }
        return true;
    }
    char arg(Arg<F> & a) {
        std::string k; in >> k; memset(&a, 0, sizeof a);
        if (k == "p") { int b = num(), o = num(); a.p = buf(b) + o; } else { a.v = cell(); if (k != "s") a.s = cell(); }
        return k[0];
    }
    bool call() {
        std::string op; char f; in >> op >> f; unsigned n = num(); int d = num(), o = num(), na = num();
        Arg<F> a[4]; char kinds[5] = { 0 };
        for (int k = 0; k != na; ++k) kinds[k] = arg(a[k]);
        expect(d, o, n);
        std::vector<Entry<F> > & t = table<F>(); bool any = false;
        for (size_t i = 0; i != t.size(); ++i) {            // all entries of this name, kinds and form (copy has synonyms)
            Entry<F> const & e = t[i];
            if (op != e.op || strcmp(kinds, e.kinds) || e.form != f || (f == 'c' && e.ct != n)) continue;
            if (any && op != "copy") continue;
            any = true; ++calls;
            int sig = guarded([&] { e.fn(buf(d) + o, a, n); });
            if (!memory(sig)) return false;
        }
        if (!any) { fprintf(stderr, "no entry for %s %s %c %u\n", op.c_str(), kinds, f, n); exit(3); }
        return true;
    }
    bool pan() {
        char f; in >> f; unsigned n = num(); int b = num(), o = num(), d0 = num(), o0 = num(), d1 = num(), o1 = num();
        Arg<F> g0, g1; char k = arg(g0); arg(g1);
        expect(d0, o0, n); expect(d1, o1, n);
        F * p0 = buf(d0) + o0, * p1 = buf(d1) + o1; const F * s = buf(b) + o; ++calls;
        int sig = guarded([&] {
            if (k == 's') switch (f) {
                case 'v': nova::pan2_vec(p0, p1, s, g0.v, g1.v, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, s, g0.v, g1.v, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, s, g0.v, g1.v); else nova::pan2_vec_simd<32>(p0, p1, s, g0.v, g1.v);
            } else switch (f) {
                case 'v': nova::pan2_vec(p0, p1, s, g0.v, g0.s, g1.v, g1.s, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, s, g0.v, g0.s, g1.v, g1.s, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, s, g0.v, g0.s, g1.v, g1.s); else nova::pan2_vec_simd<32>(p0, p1, s, g0.v, g0.s, g1.v, g1.s);
            }
        });
        return memory(sig);
    }
    bool value(const char * what, F is, F should) {
        return is == should || fail(std::string(what) + " is " + std::to_string((double)is) + ", prescribed is " + std::to_string((double)should));
    }
    bool red() {
        std::string op; char f; in >> op >> f; unsigned n = num(); int b = num(), o = num(); F w1 = cell(), w2 = cell(), r1 = 0, r2 = 0;
        const F * s = buf(b) + o; bool simd = f == 's'; ++calls;
        int sig = guarded([&] {
            if (op == "max") r1 = simd ? nova::horizontal_max_vec_simd(s, n) : nova::horizontal_max_vec(s, n);
            else if (op == "min") r1 = simd ? nova::horizontal_min_vec_simd(s, n) : nova::horizontal_min_vec(s, n);
            else if (op == "sum") r1 = simd ? nova::horizontal_sum_vec_simd(s, n) : nova::horizontal_sum_vec(s, n);
            else if (op == "minmax") { if (simd) nova::horizontal_minmax_vec_simd(r1, r2, s, n); else nova::horizontal_minmax_vec(r1, r2, s, n); }
            else { if (simd) nova::horizontal_maxsum_vec_simd(r1, r2, s, n); else nova::horizontal_maxsum_vec(r1, r2, s, n); }
        });
        return memory(sig) && value(op.c_str(), r1, w1) && value(op.c_str(), r2, w2);
    }
    bool meter(bool rms) {
        char f; in >> f; unsigned n = num(); int b = num(), o = num(); F pk = cell(), e = cell(), ret = rms ? F(0) : cell(), got = 0;
        const F * s = buf(b) + o; bool simd = f == 's'; ++calls;
        int sig = guarded([&] {
            if (rms) { if (simd) nova::peak_rms_vec_simd(s, &peak, &sq, n); else nova::peak_rms_vec(s, &peak, &sq, n); }
            else got = simd ? nova::peak_vec_simd(s, &peak, n) : nova::peak_vec(s, &peak, n);
        });
        return memory(sig) && value("peak", peak, pk) && value("energy", sq, e) && value("returned magnitude", got, ret);
    }
    bool run(int & at) {
        std::string e;
        for (at = 0; in >> e; ++at) {
            bool ok = true;
            if (e == "load") { int b = num(); expect(b, 0, CAP); memcpy(buf(b), want[b], sizeof want[b]); g[b].sync(); }
            else if (e == "call") ok = call();
            else if (e == "pan") ok = pan();
            else if (e == "red") ok = red();
            else if (e == "peak" || e == "rms") ok = meter(e == "rms");
            else if (e == "mreset") { peak = cell(); sq = cell(); }
            else { fprintf(stderr, "unknown event %s\n", e.c_str()); exit(3); }
            if (!ok) return false;
            for (int b = 0; b != NB; ++b) g[b].sync();
        }
        return true;
    }
};

template <class F> bool go(std::string const & line, long no, Rng & r) {
    Replay<F> p(line, r); int at;
    if (p.run(at)) return true;
    printf("{\"behaviour\":%ld,\"event\":%d,\"type\":\"%s\",\"why\":\"%s\"}\n", no, at + 1, Ty<F>::name(), p.why.c_str());
    return false;
}
int main(int argc, char ** argv) {
    if (argc < 3) return 2;
    install_fault_handlers();
    std::ifstream f(argv[1]); std::string line; Rng r(11); long no = 0;
    while (std::getline(f, line)) {
        ++no;
        if (!go<float>(line, no, r) || !go<double>(line, no, r)) return 1;
    }
    fprintf(stderr, "{\"replayed_calls\":%ld}\n", calls);
    return no ? 0 : 3;
}
