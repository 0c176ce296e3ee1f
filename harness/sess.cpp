// Session driver: runs random histories of nova-simd calls on guarded buffers and records every call
// as an event of spec/Trace.tla.  One line of output is one session.
// usage: sess SEED SESSIONS EVENTS CFG MODE...   (modes select operand classes and aliasing, see below)
#define NV_MAIN
#include "reg.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
using namespace nv;

static bool has(const char * list, const char * op) {      // op in comma-separated list
    std::string l = std::string(",") + list + ",";
    return l.find(std::string(",") + op + ",") != std::string::npos;
}

struct Mode {
    int inplace;            // percent of calls with the output among the inputs
    int cls;                // operand class, ANY: varied
    int inexact;            // percent of ramps that are not exactly representable
    const char * only;      // operations to use (comma list) or 0
    int pan, red, meter;    // weight of these events, percent
    int reload;
    int maxblocks;
};
static Mode M = { 25, ANY, 0, 0, 0, 0, 0, 25, 5 };

template <class F> struct Session {
    enum { NB = 5 };
    Rng & r; unsigned cap; Guarded g[NB]; std::string ev; bool first; bool dead;
    F peak, sq; int wb;     // meter state
    Session(Rng & rr) : r(rr), first(true), dead(false), peak(0), sq(0) {
        const unsigned spl = nova::unroll_constraints<F>::samples_per_loop;
        unsigned blocks = 48 / spl + r.below(M.maxblocks);
        cap = spl * blocks;
        for (int b = 0; b != NB; ++b) g[b].alloc(cap * sizeof(F), r.chance(60), 0, r);
    }
    ~Session() { for (int b = 0; b != NB; ++b) g[b].release(); }
    F * buf(int b) { return (F *)g[b].data; }
    void emit(std::string const & s) { if (!first) ev += ",\n"; first = false; ev += s; }
    void load(int b, int cls) {
        for (unsigned i = 0; i != cap; ++i) buf(b)[i] = value<F>(r, cls);
        if (r.chance(15)) { F v = value<F>(r, cls); unsigned k = r.below(cap); for (unsigned i = 0; i != cap; ++i) if (i != k) buf(b)[i] = v; }   // constant but one
        g[b].sync();
        emit("{\"e\":\"load\",\"b\":" + std::to_string(b) + ",\"d\":" + words(buf(b), cap) + "}");
    }
    int cls() { return M.cls == ANY ? (int)r.below(NCLASS) : M.cls; }
    size_t strays(int d0, unsigned o0, unsigned n0, int d1 = -1, unsigned o1 = 0, unsigned n1 = 0) {
        size_t c = 0;
        for (int b = 0; b != NB; ++b) {
            if (b == d0) c += g[b].stray(o0 * sizeof(F), (o0 + n0) * sizeof(F));
            else if (b == d1) c += g[b].stray(o1 * sizeof(F), (o1 + n1) * sizeof(F));
            else c += g[b].stray(0, 0);
        }
        return c;
    }
    void syncall() { for (int b = 0; b != NB; ++b) g[b].sync(); }
    // offset such that [off, off+n) fits; aligned: multiple of 32 bytes
    unsigned offset(unsigned n, bool aligned) {
        unsigned al = aligned ? 32 / sizeof(F) : 1;
        unsigned room = (cap - n) / al;
        unsigned c = r.below(3);
        if (c == 0) return 0;
        if (c == 1 && (cap - n) % al == 0) return cap - n;
        return al * r.below(room + 1);
    }
    unsigned length(char form, unsigned ct) {
        const unsigned spl = nova::unroll_constraints<F>::samples_per_loop;
        if (ct) return ct;
        if (form == 'v') { unsigned k = r.below(4); return k == 0 ? 1 + r.below(4) : k == 1 ? cap : 1 + r.below(cap); }
        return spl * (1 + r.below(cap / spl));
    }
    F exactbase() {
        if (sizeof(F) == 8 && r.chance(60)) return F(std::ldexp((double)(int64_t)(r.next() >> 24) - std::ldexp(1.0, 39), -30));
        return F(r.range(-256, 256)) / 16;
    }
    F exactslope() {
        if (sizeof(F) == 8 && r.chance(60)) return F(std::ldexp((double)(int64_t)(r.next() >> 24) - std::ldexp(1.0, 39), -36));
        return F(r.range(-64, 64)) / 32;
    }
    std::string argjson(char k, int b, unsigned o, Arg<F> const & a) {
        if (k == 'p') return "{\"k\":\"p\",\"b\":" + std::to_string(b) + ",\"o\":" + std::to_string(o) + "}";
        if (k == 's') return "{\"k\":\"s\",\"v\":" + word1(a.v) + "}";
        return std::string("{\"k\":\"") + k + "\",\"v\":" + word1(a.v) + ",\"s\":" + word1(a.s) + "}";
    }
    void ramp(Arg<F> & a, bool allow_inexact) {
        if (allow_inexact && r.chance(M.inexact)) { a.v = F(r.unit() * 4 - 2); a.s = F((r.unit() - 0.5) / (1 << r.below(10))); }
        else { a.v = exactbase(); a.s = exactslope(); }
    }
    void curve(Arg<F> & a) {
        switch (r.below(4)) {
        case 0: a.v = F(r.range(-50, 50)); a.s = r.chance(50) ? F(1) : F(-1); break;
        case 1: a.v = std::ldexp(F(1 + 2 * r.below(8)), r.range(-4, 4)); a.s = r.chance(50) ? F(0.5) : F(-0.5); break;
        default: a.v = F(r.unit() + 0.1); a.s = F(0.9 + 0.2 * r.unit()); break;
        }
    }
    void call() {
        std::vector<Entry<F> > & t = table<F>();
        const Entry<F> * e;
        do {
            const char * op = t[r.below(t.size())].op;              // operation first, then one of its entries
            std::vector<const Entry<F> *> c;
            for (size_t i = 0; i != t.size(); ++i) if (!strcmp(t[i].op, op)) c.push_back(&t[i]);
            e = c[r.below(c.size())];
        } while (M.only && !has(M.only, e->op));
        unsigned n = length(e->form, e->ct);
        if (n > cap) return;
        const bool dst_al = strchr("scxX", e->form), src_al = strchr("scyY", e->form);
        int d = r.below(NB); unsigned o = offset(n, dst_al);
        Arg<F> a[4]; int ab[4]; unsigned ao[4]; memset(a, 0, sizeof a);
        bool inexact_ok = has("plus,minus,times,slope,add", e->op);
        std::string aj;
        const bool copy = !strcmp(e->op, "copy"), add = !strcmp(e->op, "add");
        for (int k = 0; k != e->nargs; ++k) {
            char K = e->kinds[k];
            ab[k] = 0; ao[k] = 0;
            if (K == 'p') {
                if (!copy && r.chance(M.inplace)) { ab[k] = d; ao[k] = o; }
                else {
                    do ab[k] = r.below(NB); while (ab[k] == d);
                    if (k && ab[k] == ab[k-1] && r.chance(50)) ao[k] = ao[k-1]; else ao[k] = offset(n, src_al);
                }
                a[k].p = buf(ab[k]) + ao[k];
            } else if (K == 's') a[k].v = value<F>(r, cls());
            else if (K == 'r') ramp(a[k], inexact_ok);
            else curve(a[k]);
            if (k) aj += ",";
            aj += argjson(K, ab[k], ao[k], a[k]);
        }
        (void)add;
        F * out = buf(d) + o;
        int sig = guarded([&] { e->fn(out, a, n); });
        char head[256];
        snprintf(head, sizeof head, "{\"e\":\"call\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"d\":%d,\"o\":%u,\"a\":[", e->op, e->form, n, d, o);
        emit(head + aj + "],\"out\":" + words(out, n) + ",\"stray\":" + std::to_string(strays(d, o, n)) + ",\"sig\":" + std::to_string(sig) + "}");
        if (sig) dead = true;
        syncall();
    }
    void pan() {
        static const char forms[] = "vsc";
        char f = forms[r.below(3)]; bool ramps = r.chance(50);
        unsigned n = f == 'c' ? 16u << r.below(2) : length(f, 0);
        if (n > cap) return;
        bool al = f != 'v';
        int b = r.below(NB), d0, d1; unsigned o = offset(n, al), o0, o1;
        do d0 = r.below(NB); while (d0 == b); o0 = offset(n, al);
        do d1 = r.below(NB); while (d1 == b || d1 == d0); o1 = offset(n, al);
        if (r.chance(M.inplace)) { if (r.chance(50)) { d0 = b; o0 = o; } else { d1 = b; o1 = o; } }
        Arg<F> g0, g1; memset(&g0, 0, sizeof g0); memset(&g1, 0, sizeof g1);
        if (ramps) { ramp(g0, true); ramp(g1, true); } else { g0.v = value<F>(r, cls()); g1.v = value<F>(r, cls()); }
        F * p0 = buf(d0) + o0, * p1 = buf(d1) + o1; const F * in = buf(b) + o;
        int sig = guarded([&] {
            if (!ramps) switch (f) {
                case 'v': nova::pan2_vec(p0, p1, in, g0.v, g1.v, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, in, g0.v, g1.v, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, in, g0.v, g1.v); else nova::pan2_vec_simd<32>(p0, p1, in, g0.v, g1.v);
            } else switch (f) {
                case 'v': nova::pan2_vec(p0, p1, in, g0.v, g0.s, g1.v, g1.s, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, in, g0.v, g0.s, g1.v, g1.s, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, in, g0.v, g0.s, g1.v, g1.s); else nova::pan2_vec_simd<32>(p0, p1, in, g0.v, g0.s, g1.v, g1.s);
            }
        });
        char head[256];
        snprintf(head, sizeof head, "{\"e\":\"pan\",\"f\":\"%c\",\"n\":%u,\"b\":%d,\"o\":%u,\"d0\":%d,\"o0\":%u,\"d1\":%d,\"o1\":%u,", f, n, b, o, d0, o0, d1, o1);
        char K = ramps ? 'r' : 's';
        emit(std::string(head) + "\"g0\":" + argjson(K, 0, 0, g0) + ",\"g1\":" + argjson(K, 0, 0, g1) + ",\"out0\":" + words(p0, n) + ",\"out1\":" + words(p1, n) +
             ",\"stray\":" + std::to_string(strays(d0, o0, n, d1, o1, n)) + ",\"sig\":" + std::to_string(sig) + "}");
        if (sig) dead = true;
        syncall();
    }
    void reduce() {
        static const char * ops[] = { "max", "min", "sum", "minmax", "maxsum" };
        int k = r.below(5); bool simd = r.chance(60);
        const unsigned vs = nova::vec<F>::size;
        unsigned n = simd ? vs * (1 + r.below(cap / vs)) : length('v', 0);
        int b = r.below(NB); unsigned o = offset(n, simd);
        // keep the buffer free of NaN
        load(b, M.cls == ANY ? (r.chance(30) ? (int)FINITE : 1 + (int)r.below(3)) : M.cls);
        bool dirty = false;
        for (unsigned i = 0; i != cap; ++i) if (buf(b)[i] != buf(b)[i]) { buf(b)[i] = F(1); dirty = true; }
        switch (r.below(4)) {       // all of one sign: the start value of the accumulator must not show
        case 0: for (unsigned i = 0; i != cap; ++i) buf(b)[i] = std::fabs(buf(b)[i]); dirty = true; break;
        case 1: for (unsigned i = 0; i != cap; ++i) buf(b)[i] = -std::fabs(buf(b)[i]); dirty = true; break;
        case 2: { F x = buf(b)[r.below(cap)]; for (unsigned i = 0; i != cap; ++i) buf(b)[i] = x;                // one outlier anywhere
                  buf(b)[o + r.below(n)] = r.chance(50) ? x * 2 + 1 : x / 2 - 1; dirty = true; break; }
        default: break;
        }
        for (unsigned i = 0; i != cap; ++i) if (buf(b)[i] != buf(b)[i]) { buf(b)[i] = F(1); dirty = true; }
        if (dirty) { g[b].sync(); emit("{\"e\":\"load\",\"b\":" + std::to_string(b) + ",\"d\":" + words(buf(b), cap) + "}"); }
        const F * in = buf(b) + o; F r1 = 0, r2 = 0;
        int sig = guarded([&] {
            if (simd) switch (k) {
                case 0: r1 = nova::horizontal_max_vec_simd(in, n); break;
                case 1: r1 = nova::horizontal_min_vec_simd(in, n); break;
                case 2: r1 = nova::horizontal_sum_vec_simd(in, n); break;
                case 3: nova::horizontal_minmax_vec_simd(r1, r2, in, n); break;
                case 4: nova::horizontal_maxsum_vec_simd(r1, r2, in, n); break;
            } else switch (k) {
                case 0: r1 = nova::horizontal_max_vec(in, n); break;
                case 1: r1 = nova::horizontal_min_vec(in, n); break;
                case 2: r1 = nova::horizontal_sum_vec(in, n); break;
                case 3: nova::horizontal_minmax_vec(r1, r2, in, n); break;
                case 4: nova::horizontal_maxsum_vec(r1, r2, in, n); break;
            }
        });
        char head[256];
        snprintf(head, sizeof head, "{\"e\":\"red\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":%d,\"o\":%u,", ops[k], simd ? 's' : 'v', n, b, o);
        emit(std::string(head) + "\"r1\":" + word1(r1) + ",\"r2\":" + word1(r2) + ",\"stray\":" + std::to_string(strays(-1, 0, 0)) + ",\"sig\":" + std::to_string(sig) + "}");
        if (sig) dead = true;
        syncall();
    }
    void mreset() {
        peak = r.chance(50) ? F(0) : F(std::fabs(value<F>(r, MIXED))); sq = r.chance(50) ? F(0) : F(std::fabs(value<F>(r, MIXED)));
        emit("{\"e\":\"mreset\",\"pk\":" + word1(peak) + ",\"sq\":" + word1(sq) + "}");
    }
    void meter() {
        if (r.chance(12)) mreset();
        bool simd = r.chance(60), rms = r.chance(50);
        const unsigned spl = nova::unroll_constraints<F>::samples_per_loop;
        unsigned n = simd ? spl * (1 + r.below(cap / spl)) : length('v', 0);
        int b = r.below(NB); unsigned o = offset(n, simd);
        bool nan = false;
        for (unsigned i = 0; i != n; ++i) nan |= buf(b)[o + i] != buf(b)[o + i];
        if (nan || r.chance(60)) {
            int c = M.cls == ANY ? 1 + (int)r.below(3) : M.cls;
            F scale = std::ldexp(F(1), r.range(-6, 3));
            for (unsigned i = 0; i != cap; ++i) { F x; do x = value<F>(r, c); while (x != x); buf(b)[i] = x * scale; }
            if (r.chance(30)) { for (unsigned i = 0; i != cap; ++i) buf(b)[i] /= 1024; buf(b)[o + r.below(n)] *= -4096; }      // a single outlier
            g[b].sync();
            emit("{\"e\":\"load\",\"b\":" + std::to_string(b) + ",\"d\":" + words(buf(b), cap) + "}");
        }
        const F * in = buf(b) + o; F ret = 0;
        int sig = guarded([&] {
            if (rms) { if (simd) nova::peak_rms_vec_simd(in, &peak, &sq, n); else nova::peak_rms_vec(in, &peak, &sq, n); }
            else ret = simd ? nova::peak_vec_simd(in, &peak, n) : nova::peak_vec(in, &peak, n);
        });
        char head[256];
        snprintf(head, sizeof head, "{\"e\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":%d,\"o\":%u,", rms ? "rms" : "peak", simd ? 's' : 'v', n, b, o);
        emit(std::string(head) + "\"pk\":" + word1(peak) + ",\"sq\":" + word1(sq) + ",\"ret\":" + word1(ret) +
             ",\"stray\":" + std::to_string(strays(-1, 0, 0)) + ",\"sig\":" + std::to_string(sig) + "}");
        if (sig) dead = true;
        syncall();
    }
    void run(int events, const char * cfg) {
        for (int b = 0; b != NB; ++b) { int c = M.meter || M.red ? (M.cls == ANY ? 1 + (int)r.below(3) : M.cls) : cls(); load(b, c); }
        mreset();
        for (int i = 0; i != events && !dead; ++i) {
            if (r.chance(M.reload)) load(r.below(NB), (M.meter || M.red) && M.cls == ANY ? 1 + (int)r.below(3) : cls());
            int x = r.below(100);
            if (x < M.pan) pan();
            else if (x < M.pan + M.red) reduce();
            else if (x < M.pan + M.red + M.meter) meter();
            else if (!table<F>().empty()) call();
        }
        printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":%d,\"cap\":%u,\"ev\":[%s]}\n", Ty<F>::name(), cfg, (int)NB, cap, [&] { std::string s = ev; for (char & ch : s) if (ch == '\n') ch = ' '; return s; }().c_str());
    }
};

int main(int argc, char ** argv) {
    if (argc < 5) return 2;
    uint64_t seed = strtoull(argv[1], 0, 0); int sessions = atoi(argv[2]), events = atoi(argv[3]); const char * cfg = argv[4];
    for (int i = 5; i < argc; ++i) {
        std::string s = argv[i]; size_t q = s.find('='); if (q == std::string::npos) return 2;
        std::string k = s.substr(0, q); const char * v = argv[i] + q + 1;
        if (k == "inplace") M.inplace = atoi(v); else if (k == "cls") M.cls = atoi(v); else if (k == "inexact") M.inexact = atoi(v);
        else if (k == "only") M.only = v; else if (k == "pan") M.pan = atoi(v); else if (k == "red") M.red = atoi(v); else if (k == "meter") M.meter = atoi(v);
        else if (k == "reload") M.reload = atoi(v); else if (k == "blocks") M.maxblocks = atoi(v); else return 2;
    }
    install_fault_handlers();

    Rng r(seed);
    for (int i = 0; i != sessions; ++i) {
        if (i % 2 == 0) { Session<float> s(r); s.run(events, cfg); } else { Session<double> s(r); s.run(events, cfg); }
    }
    return 0;
}
