// Repeats calls: after other calls, in other floating-point environments, and on several threads at once.  One line
// of output is one session, judged by spec/Pure.tla.
// usage: pure SEED SESSIONS CFG [samples=N]
#define NV_MAIN
#include "reg.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
#include <functional>
#include <thread>
#include <atomic>
#include <map>
using namespace nv;

static unsigned environment() {         // control bits of both units; the sticky exception flags are no part of it
    unsigned csr = __builtin_ia32_stmxcsr() & ~0x3fu; unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw));
    return csr | (unsigned)(cw & 0xf3f) << 16;
}
static void enter(unsigned csr) { __builtin_ia32_ldmxcsr(csr); }
static const unsigned ENV[] = { 0x1f80, 0x1f80, 0x9fc0, 0x9f80, 0x5f80, 0x3f80, 0x7f80 };     // default, flush to zero (and denormals are zero), directed roundings

template <class F> struct Job {
    std::string label; unsigned n, nout; std::vector<F> in[4]; Arg<F> a[4]; const Entry<F> * e; int what; bool inplace;
    unsigned skew;
};
// the buffers of one thread
template <class F> struct Desk {
    enum { MAX = 1100 };
    F * mem[6];
    Desk() { for (int i = 0; i != 6; ++i) { void * p; if (posix_memalign(&p, 64, MAX * sizeof(F))) _exit(3); mem[i] = (F *)p; } }
    ~Desk() { for (int i = 0; i != 6; ++i) free(mem[i]); }
    // runs the job and returns its outputs
    void run(Job<F> const & j, std::vector<F> & out) {
        Arg<F> a[4]; memcpy(a, j.a, sizeof a);
        for (int k = 0; k != 4; ++k) if (!j.in[k].empty()) { memcpy(mem[k], j.in[k].data(), j.in[k].size() * sizeof(F)); a[k].p = mem[k]; }
        F * o = j.inplace ? mem[0] : mem[4], * o2 = mem[5]; unsigned n = j.n; const F * in = mem[0];
        if (!j.inplace) for (unsigned i = 0; i != n; ++i) o[i] = j.in[3].size() == n && j.what == 0 ? j.in[3][i] : F(1);
        out.assign(j.nout, F(0));
        F p = j.a[0].v, q = j.a[1].v;
        switch (j.what) {
        case 0: j.e->fn(o, a, n); memcpy(out.data(), o, n * sizeof(F)); return;
        case 1: nova::pan2_vec(o, o2, in, a[1].v, a[1].s, a[2].v, a[2].s, n); break;
        case 2: nova::pan2_vec_simd(o, o2, in, a[1].v, a[1].s, a[2].v, a[2].s, n); break;
        case 3: nova::pan2_vec(o, o2, in, a[1].v, a[2].v, n); break;
        case 4: nova::pan2_vec_simd(o, o2, in, a[1].v, a[2].v, n); break;
        case 5: out[0] = nova::horizontal_max_vec_simd(in, n); out[1] = nova::horizontal_min_vec(in, n); return;
        case 6: out[0] = nova::horizontal_min_vec_simd(in, n); out[1] = nova::horizontal_max_vec(in, n); return;
        case 7: out[0] = nova::horizontal_sum_vec_simd(in, n); out[1] = nova::horizontal_sum_vec(in, n); return;
        case 8: nova::horizontal_minmax_vec_simd(out[0], out[1], in, n); return;
        case 9: nova::horizontal_maxsum_vec_simd(out[0], out[1], in, n); return;
        case 10: out[1] = nova::peak_vec_simd(in, &p, n); out[0] = p; return;
        case 11: nova::peak_rms_vec_simd(in, &p, &q, n); out[0] = p; out[1] = q; return;
        case 12: out[1] = nova::peak_vec(in, &p, n); out[0] = p; return;
        case 13: nova::peak_rms_vec(in, &p, &q, n); out[0] = p; out[1] = q; return;
        }
        memcpy(out.data(), o, n * sizeof(F)); memcpy(out.data() + n, o2, n * sizeof(F));
    }
};

static long calls = 0, threaded = 0, odd = 0;

template <class F> struct Session {
    enum { J = 6, T = 4 };
    Rng & r; Job<F> job[J]; std::vector<F> known[J]; std::string ev; Desk<F> desk[T + 1]; bool strange;
    Session(Rng & rr) : r(rr), strange(false) {}
    void make(Job<F> & j, const Job<F> * like) {
        static const unsigned spl = nova::unroll_constraints<F>::samples_per_loop;
        std::vector<Entry<F> > & t = table<F>();
        if (like) { j.what = like->what; j.e = like->e; j.n = like->n; }
        else {
            j.what = r.chance(75) && !t.empty() ? 0 : 1 + r.below(13); j.e = 0;
            if (j.what == 0) {
                const char * op = t[r.below(t.size())].op; std::vector<const Entry<F> *> c;
                for (size_t i = 0; i != t.size(); ++i) if (!strcmp(t[i].op, op)) c.push_back(&t[i]);
                j.e = c[r.below(c.size())];
            }
            unsigned blocks = r.chance(10) ? 1 + r.below(1024 / spl) : 1 + r.below(48 / spl);
            j.n = j.e && j.e->ct ? j.e->ct : spl * blocks;
            if ((j.e && j.e->form == 'v') || j.what == 1 || j.what == 3 || j.what >= 12) j.n = 1 + r.below(40);
        }
        memset(j.a, 0, sizeof j.a);
        int cls = r.chance(60) ? AUDIO : 1 + r.below(NCLASS - 1);
        if (j.what > 4 && (cls == SPECIAL || cls == BITS)) cls = FINITE;
        for (int k = 0; k != 4; ++k) {
            j.a[k].v = value<F>(r, cls == BITS || cls == SPECIAL ? MIXED : cls); j.a[k].s = F((r.unit() - 0.5) / 16);
            bool buf = j.what == 0 ? (k < j.e->nargs ? j.e->kinds[k] == 'p' : k == 3) : k == 0;
            j.in[k].clear();
            if (buf) { j.in[k].resize(j.n); for (unsigned i = 0; i != j.n; ++i) j.in[k][i] = value<F>(r, cls); }
        }
        if (j.what >= 10) { j.a[0].v = std::fabs(j.a[0].v); j.a[1].v = std::fabs(j.a[1].v); }
        j.inplace = j.what == 0 && j.e->nargs && j.e->kinds[0] == 'p' && strcmp(j.e->op, "copy") && strcmp(j.e->op, "add") && r.chance(30);
        j.nout = j.what == 0 ? j.n : j.what < 5 ? 2 * j.n : 2;
        static const char * names[] = { "", "pan2_vec_ramp", "pan2_vec_simd_ramp", "pan2_vec", "pan2_vec_simd", "hmax", "hmin", "hsum", "minmax", "maxsum", "peak_simd", "rms_simd", "peak", "rms" };
        j.label = j.what ? names[j.what] : std::string(j.e->op) + "/" + j.e->kinds + "/" + j.e->form;
    }
    void emit(int id, int th, unsigned before, unsigned after, int sig, std::vector<F> const & out) {
        if (!ev.empty()) ev += ',';
        // long results are shown by the elements around the first one that differs from what was known
        size_t n = out.size(), from = 0, show = n;
        if (n > 24) {
            show = 24;
            for (size_t i = 0; i != n; ++i) if (known[id].size() == n && memcmp(&known[id][i], &out[i], sizeof(F))) { from = i > 8 ? i - 8 : 0; break; }
            if (from + show > n) from = n - show;
        }
        bool differs = known[id].size() == n && memcmp(known[id].data(), out.data(), n * sizeof(F));
        if (n > 24 && from && known[id].size() == n) {      // the same window of the known result first
            std::vector<F> w(known[id].begin() + from, known[id].begin() + from + show);
            ev += "{\"id\":" + std::to_string(id + 100 * from) + ",\"op\":\"" + job[id].label + "\",\"n\":" + std::to_string(job[id].n) + ",\"th\":-1,\"before\":" + std::to_string(environment0) + ",\"after\":" + std::to_string(environment0) + ",\"sig\":0,\"out\":" + words(w) + "},";
        }
        std::vector<F> w(out.begin() + from, out.begin() + from + show);
        ev += "{\"id\":" + std::to_string(id + 100 * from) + ",\"op\":\"" + job[id].label + "\",\"n\":" + std::to_string(job[id].n) + ",\"th\":" + std::to_string(th) + ",\"before\":" + std::to_string((int)before) + ",\"after\":" + std::to_string((int)after) + ",\"sig\":" + std::to_string(sig) + ",\"out\":" + words(w) + "}";
        if (sig || before != after || (before == environment0 && differs)) strange = true;
    }
    unsigned environment0;
    bool once(int id, unsigned csr) {
        std::vector<F> out; enter(csr); unsigned before = environment(), after = 0;
        int sig = guarded([&] { desk[T].run(job[id], out); after = environment(); });
        enter(0x1f80); ++calls;
        emit(id, 0, before, sig ? before : after, sig, out);
        if (csr == 0x1f80 && known[id].empty()) known[id] = out;
        return !sig;
    }
    struct Odd { int id, th; unsigned before, after; std::vector<F> out; };
    void together() {
        std::vector<Odd> found[T]; std::atomic<int> ready(0); long made[T] = { 0 };
        auto work = [&](int th, uint64_t seed) {
            Rng q(seed); std::vector<F> out;
            ready++; while (ready < T) {}
            for (int i = 0; i != 120; ++i) {
                int id = q.chance(70) ? th % J : q.below(J);
                if (known[id].empty()) continue;
                unsigned before = environment();
                desk[th].run(job[id], out);
                unsigned after = environment(); ++made[th];
                bool same = before == after && out.size() == known[id].size() && !memcmp(out.data(), known[id].data(), out.size() * sizeof(F));
                if ((!same && found[th].size() < 3) || i == 119) { Odd o; o.id = id; o.th = th + 1; o.before = before; o.after = after; o.out = out; found[th].push_back(o); }
                if (before != after) enter(0x1f80);
            }
        };
        std::vector<std::thread> ts;
        for (int th = 0; th != T; ++th) ts.push_back(std::thread(work, th, r.next()));
        for (auto & x : ts) x.join();
        for (int th = 0; th != T; ++th) { threaded += made[th]; for (Odd & o : found[th]) emit(o.id, o.th, o.before, o.after, 0, o.out); }
    }
    bool play() {
        environment0 = environment();
        bool family = r.chance(60);
        for (int k = 0; k != J; ++k) make(job[k], family && k && k < 4 ? &job[0] : 0);
        for (int k = 0; k != J; ++k) if (!once(k, 0x1f80)) return true;
        for (int i = 0; i != 14; ++i) if (!once(r.below(J), ENV[r.below(sizeof ENV / sizeof ENV[0])])) return true;
        together();
        for (int k = 0; k != J; ++k) if (!once(k, 0x1f80)) return true;
        return strange;
    }
};
template <class F> void session(Rng & r, const char * cfg, bool show) {
    Session<F> s(r);
    bool o = s.play(); if (o) ++odd;
    if ((o && odd < 40) || show) printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"ev\":[%s]}\n", Ty<F>::name(), cfg, s.ev.c_str());
}
int main(int argc, char ** argv) {
    if (argc < 4) return 2;
    uint64_t seed = strtoull(argv[1], 0, 0); long n = atol(argv[2]); long samples = 40;
    for (int i = 4; i < argc; ++i) if (!strncmp(argv[i], "samples=", 8)) samples = atol(argv[i] + 8);
    install_fault_handlers();
    Rng r(seed); long step = n / samples; if (!step) step = 1;
    for (long i = 0; i != n; ++i) { if (i % 2) session<double>(r, argv[3], i % step == 0 || i % step == 1); else session<float>(r, argv[3], i % step == 0); }
    fprintf(stderr, "{\"calls\":%ld,\"calls_on_threads\":%ld,\"odd_sessions\":%ld}\n", calls, threaded, odd);
    return 0;
}
