// Single-call driver: very many calls on fresh windows next to inaccessible pages.  Calls that look odd to
// the selector (oracle.hpp), and a random sample of the others, are recorded as one-call sessions of
// spec/Trace.tla or as agreement events of spec/Agree.tla.
// usage: micro MODE SEED TRIALS CFG key=value...
//   modes: call   one call against the definition of the operation
//          forms  the same call in all processing forms
//          split  a call on the whole signal against calls on consecutive blocks
//          cross  calls that do not depend on the build; the runner compares the builds
//          giant  calls with a million elements; a window of each is recorded
//          sweep  unary operations over the bit patterns of float (stride=, first=)
#define NV_MAIN
#include "reg.hpp"
#include "oracle.hpp"
#include "simd_pan.hpp"
#include "simd_peakmeter.hpp"
#include "simd_horizontal_functions.hpp"
#include <set>
#include <map>
using namespace nv;

static bool has(const char * list, const char * op) {
    std::string l = std::string(",") + list + ",";
    return l.find(std::string(",") + op + ",") != std::string::npos;
}

struct Mode {
    int inplace, cls, inexact, samples, pan, red, meter, big, ty; const char * only; unsigned long stride, first; int maxodd; const char * dump; const char * kinds; const char * forms; unsigned long count; unsigned huge;
};
static Mode M = { 30, ANY, 10, 200, 0, 0, 0, 2, 0, 0, 65537, 0, 60, 0, 0, 0, 0, 2500 };
static const char * cfg;
static unsigned long n_trials, n_elems, n_odd, n_shown, n_sampled; static std::map<std::string, unsigned> odds; static std::set<std::string> combos;

// ---- windows in guarded arenas ----
enum { NA = 6, ARENA = 600 << 10 };         // 76800 doubles
static size_t vecalign = 32;                // what aligned access needs
static Guarded arena[NA];
static void arenas(Rng & r) { for (int i = 0; i != NA; ++i) arena[i].alloc(ARENA, true, 0, r); }
struct Win { int a; size_t off, bytes; unsigned char * p() const { return arena[a].data + off; } };
static Win place(int a, size_t bytes, size_t esize, bool aligned, Rng & r) {
    Win w; w.a = a; w.bytes = bytes;
    switch (r.below(5)) {
    case 0: w.off = 0; break;
    case 1: w.off = aligned ? vecalign * r.below((unsigned)((ARENA - bytes) / vecalign) + 1) : esize * r.below((ARENA - bytes) / esize + 1); break;
    default: w.off = ARENA - bytes; if (aligned) w.off &= ~(vecalign - 1); break;
    }
    return w;
}
static size_t window_stray(Win const & w, bool written, bool full) {
    Guarded & g = arena[w.a];
    if (full) return written ? g.stray(w.off, w.off + w.bytes) : g.stray(0, 0);
    size_t lo = w.off > 512 ? w.off - 512 : 0, hi = std::min<size_t>(w.off + w.bytes + 512, ARENA), c = 0;
    const unsigned char * s = g.shadow + (g.data - g.map);
    if (memcmp(g.data + lo, s + lo, w.off - lo)) ++c;
    if (memcmp(g.data + w.off + w.bytes, s + w.off + w.bytes, hi - w.off - w.bytes)) ++c;
    if (!written && memcmp(g.data + w.off, s + w.off, w.bytes)) ++c;
    return c;
}
static void commit(Win const & w) { Guarded & g = arena[w.a]; memcpy(g.shadow + (w.p() - g.map), w.p(), w.bytes); }
static void resync() { for (int i = 0; i != NA; ++i) arena[i].sync(); }

static std::string quote(const char * k, std::string const & v) { return std::string("\"") + k + "\":" + v; }

template <class F> struct Micro {
    Rng & r; F buf[8][70000 + 64];
    explicit Micro(Rng & rr) : r(rr) {}
    static unsigned spl() { return nova::unroll_constraints<F>::samples_per_loop; }
    unsigned maxn() { return 4096; }
    // round lengths, and those one step beside them, are the ones that block sizes and counters change at
    unsigned round_length(unsigned step) {
        unsigned n = 128u << r.below(6);
        if (n == 4096 || r.chance(60)) return n;
        return r.chance(50) ? n - step : n + step;
    }
    unsigned length(char form, unsigned ct) {
        if (ct) return ct;
        const unsigned s = spl();
        if (M.huge && r.below(M.huge) == 0) { unsigned n = r.chance(50) ? 65536 + 64 * r.below(60) : 4096 + r.below(64000); return form == 'v' ? n - r.below(3) : n / 128 * 128; }
        if (form == 'v') {
            switch (r.below(8)) {
            case 0: return 1 + r.below(5);
            case 1: return s * (1 + r.below(6)) + r.below(3) - 1;
            case 2: if ((int)r.below(100) < M.big * 4) return r.chance(40) ? round_length(1) : 1 + r.below(maxn());
            default: return 1 + r.below(100);
            }
        }
        if ((int)r.below(100) < M.big) return r.chance(40) ? round_length(s) : s * (1 + r.below(maxn() / s));
        return s * (1 + r.below(r.chance(60) ? 5 : 24));
    }
    F exactbase(bool coarse = false) {
        if (r.chance(8)) return F(0);
        if (!coarse && sizeof(F) == 8 && r.chance(60)) return F(std::ldexp((double)(int64_t)(r.next() >> 24) - std::ldexp(1.0, 39), -30));
        return F(r.range(-256, 256)) / 16;
    }
    F exactslope(bool coarse = false) {
        if (r.chance(10)) return F(0);
        if (!coarse && sizeof(F) == 8 && r.chance(60)) return F(std::ldexp((double)(int64_t)(r.next() >> 24) - std::ldexp(1.0, 39), -36));
        return F(r.range(-64, 64)) / 32;
    }
    void ramp(Arg<F> & a, bool allow_inexact, unsigned n) {
        if (allow_inexact && (int)r.below(100) < M.inexact) { a.v = F(r.unit() * 4 - 2); a.s = F((r.unit() - 0.5) / (1 << r.below(10))); }
        else { a.v = exactbase(n > 4096); a.s = exactslope(n > 4096); }
    }
    void curve(Arg<F> & a) {
        switch (r.below(4)) {
        case 0: a.v = F(r.range(-50, 50)); a.s = r.chance(50) ? F(1) : F(-1); break;
        case 1: a.v = std::ldexp(F(1 + 2 * r.below(8)), r.range(-4, 4)); a.s = r.chance(50) ? F(0.5) : F(-0.5); break;
        default: a.v = F(r.unit() + 0.1); a.s = F(0.9 + 0.2 * r.unit()); break;
        }
    }
    F plain() { static const F t[] = { F(0), -F(0), F(1), F(-1), F(0.5), F(2) }; return t[r.below(6)]; }
    int cls() { return M.cls == ANY ? (int)r.below(NCLASS) : M.cls; }
    void fill(F * p, unsigned n, int c) {
        for (unsigned i = 0; i != n; ++i) p[i] = value<F>(r, c);
        switch (r.below(10)) {
        case 0: { F v = r.chance(30) ? special<F>(r) : value<F>(r, c); unsigned k = r.chance(50) ? r.below(n) : n; for (unsigned i = 0; i != n; ++i) if (i != k) p[i] = v; break; }     // constant, or constant but one
        case 1: { unsigned k = r.below(n); F v = special<F>(r); for (unsigned i = 0; i != n; ++i) if (i != k) p[i] = F(r.unit()); p[k] = v; break; }
        case 2: { F v = r.chance(70) ? F(0) : plain(); unsigned k = r.below(3); unsigned m = r.below(n + 1);                             // zeros: scattered, before or after
                  for (unsigned i = 0; i != n; ++i) if (k == 0 ? r.chance(50) : k == 1 ? i < m : i >= m) p[i] = v; break; }
        default: break;
        }
    }
    std::string argjson(char k, int b, Arg<F> const & a) {
        if (k == 'p') return "{\"k\":\"p\",\"b\":" + std::to_string(b) + ",\"o\":0}";
        if (k == 's') return "{\"k\":\"s\",\"v\":" + word1(a.v) + "}";
        return std::string("{\"k\":\"") + k + "\",\"v\":" + word1(a.v) + ",\"s\":" + word1(a.s) + "}";
    }
    static std::string refwords(std::vector<LD> const & v) {
        std::string o = "[";
        for (size_t i = 0; i != v.size(); ++i) { double hi = (double)v[i], lo = std::isfinite(hi) ? (double)(v[i] - hi) : 0; if (i) o += ','; word(o, hi); o += ','; word(o, lo); }
        return o + "]";
    }
    const Entry<F> * pick(bool ctok = true) {
        std::vector<Entry<F> > & t = table<F>();
        for (;;) {
            const char * op = t[r.below(t.size())].op;
            std::vector<const Entry<F> *> c;
            for (size_t i = 0; i != t.size(); ++i) if (is(t[i].op, op)) c.push_back(&t[i]);
            const Entry<F> * e = c[r.below(c.size())];
            if (M.only && !has(M.only, e->op)) continue;
            if (M.kinds && !strpbrk(e->kinds, M.kinds)) continue;
            if (M.forms && !strchr(M.forms, e->form)) continue;
            if (!ctok && e->ct) continue;
            return e;
        }
    }
    // arguments of a call: scalars and ramps in a[], buffer contents in buf[k]
    void prepare(const Entry<F> * e, unsigned n, Arg<F> * a, bool inexact_ok) {
        const bool ap = approximated(e->op);
        memset(a, 0, 4 * sizeof a[0]);
        int c0 = cls();
        for (int k = 0; k != e->nargs; ++k) {
            char K = e->kinds[k];
            if (K == 'p') fill(buf[k], n, r.chance(70) ? c0 : cls());
            else if (K == 's') a[k].v = r.chance(15) ? plain() : value<F>(r, r.chance(70) ? c0 : cls());
            else if (K == 'r') ramp(a[k], inexact_ok, n);
            else curve(a[k]);
        }
        if (ap) {
            F d[2] = { 0, 0 }, d2[2];
            domain<F>(r, e->op, d);
            for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 's') a[k].v = d[k];
            for (unsigned i = 0; i != n; ++i) {
                const bool pw = e->nargs == 2;
                for (;;) {
                    domain<F>(r, e->op, d2);
                    if (pw) {
                        F x = e->kinds[0] == 's' ? a[0].v : d2[0], y = e->kinds[1] == 's' ? a[1].v : d2[1];
                        if (!(std::fabs(y * std::log2(std::fabs(x))) < (sizeof(F) == 4 ? 125.5 : 1020)) || !(is(e->op, "spow") || x > 0)) continue;
                    }
                    break;
                }
                for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'p') buf[k][i] = d2[k];
            }
        } else if (e->nargs >= 2 && r.chance(50)) {             // related operands: equal, neighbours, opposite
            for (int k = 1; k != e->nargs; ++k) if (e->kinds[k] == 'p' && e->kinds[k-1] != 'e') for (unsigned i = 0; i != n; ++i) {
                F x = e->kinds[k-1] == 'p' ? buf[k-1][i] : a[k-1].v;
                switch (r.below(6)) {
                case 0: buf[k][i] = x; break;
                case 1: buf[k][i] = -x; break;
                case 2: buf[k][i] = std::nextafter(x, r.chance(50) ? F(1e30) : F(-1e30)); break;
                default: break;
                }
            }
        }
        if (is(e->op, "clip") && r.chance(80) && e->kinds[1] == 'p' && e->kinds[2] == 'p') for (unsigned i = 0; i != n; ++i) if (buf[1][i] > buf[2][i]) std::swap(buf[1][i], buf[2][i]);
        if (is(e->op, "clip") && e->kinds[1] == 's' && e->kinds[2] == 's' && a[1].v > a[2].v && r.chance(90)) std::swap(a[1].v, a[2].v);
        if (is(e->op, "clip2") && r.chance(80)) { a[1].v = std::fabs(a[1].v); if (e->kinds[1] == 'p') for (unsigned i = 0; i != n; ++i) buf[1][i] = std::fabs(buf[1][i]); }
    }
    LD argat(const Entry<F> * e, const Arg<F> * a, int k, unsigned i) {
        char K = e->kinds[k];
        return K == 'p' ? (LD)buf[k][i] : K == 's' ? (LD)a[k].v : K == 'r' ? (LD)a[k].v + (LD)i * (LD)a[k].s : 0;
    }
    bool exact_ramp(Arg<F> const & a, unsigned n) {             // the driver's exact ramps have few bits
        LD q = ldexpl(1, sizeof(F) == 4 ? -5 : -36), m = fabsl(a.v) + (n + 16) * fabsl(a.s);
        return fmodl(a.v, q) == 0 && fmodl(a.s, q) == 0 && m / q < ldexpl(1, std::numeric_limits<F>::digits);
    }
    // is there anything odd about the outputs?
    bool odd(const Entry<F> * e, const Arg<F> * a, unsigned n, const F * out, const F * before, std::vector<LD> & refs) {
        const char * op = e->op;
        if (is(op, "zero")) { for (unsigned i = 0; i != n; ++i) if (tobits(out[i]) != 0) return true; return false; }
        if (is(op, "set")) { for (unsigned i = 0; i != n; ++i) if (tobits(out[i]) != tobits(a[0].v)) return true; return false; }
        if (is(op, "copy")) return memcmp(out, buf[0], n * sizeof(F)) != 0;
        bool exact = true;
        for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'r' && !exact_ramp(a[k], n)) exact = false;
        if (is(op, "slope")) {
            for (unsigned i = 0; i != n; ++i) { LD v = argat(e, a, 0, i); if (exact ? out[i] != v : !(fabsl(out[i] - v) <= (i + 1) * std::numeric_limits<F>::epsilon() / 2 * (fabsl(a[0].v) + (i + 16) * fabsl(a[0].s)))) return true; }
            return false;
        }
        if (is(op, "exp")) {
            for (unsigned i = 0; i != n; ++i) {
                LD v = (LD)a[0].v * powl(a[0].s, i); int ex; bool p2 = fabs(frexp((double)a[0].s, &ex)) == 0.5;
                if (p2 && (v == 0 || fabsl(v) > 100 * std::numeric_limits<F>::min()) ? out[i] != v : !(fabsl(out[i] - v) <= (i + 10) * (std::numeric_limits<F>::epsilon() / 2 * fabsl(v) + std::numeric_limits<F>::denorm_min()))) return true;
            }
            return false;
        }
        const bool ap = approximated(op);
        bool res = false;
        for (unsigned i = 0; i != n; ++i) {
            LD as[4]; int na = e->nargs;
            if (is(op, "add")) { as[0] = before[i]; as[1] = argat(e, a, 0, i); na = 2; }
            else for (int k = 0; k != na; ++k) as[k] = argat(e, a, k, i);
            if (ap) { LD v = reference(op, as); refs.push_back(v); if (suspicious_ref<F>(op, out[i], v, false)) res = true; }
            else if (!exact) {
                LD v = is(op, "minus") ? as[0] - as[1] : is(op, "times") ? as[0] * as[1] : as[0] + as[1], m = 0;
                for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'r') m += fabsl(a[k].v) + (i + 16) * fabsl(a[k].s); else m += fabsl(argat(e, a, k, i));
                if (is(op, "times")) { m = 1; for (int k = 0; k != e->nargs; ++k) m *= e->kinds[k] == 'r' ? fabsl(a[k].v) + (i + 16) * fabsl(a[k].s) : fabsl(argat(e, a, k, i)); }
                else m += fabsl(as[0]) + fabsl(as[1]);
                if (m != m || m > std::numeric_limits<F>::max() / 4) continue;      // not finite: excluded
                if (!(fabsl(out[i] - v) <= (i + 2) * std::numeric_limits<F>::epsilon() / 2 * m + std::numeric_limits<F>::denorm_min())) res = true;
            } else if (suspicious<F>(is(op, "add") ? "plus" : op, as, na, out[i])) res = true;
        }
        return res;
    }
    // keyed by what was called, so that many odd calls of one kind do not hide the others
    bool want(bool is_odd, unsigned n, std::string const & key) {
        ++n_trials; n_elems += n;
        if (is_odd) { ++n_odd; unsigned & c = odds[key]; if (c < 3 && n_shown < (unsigned long)M.maxodd) { ++c; ++n_shown; return true; } return false; }
        if (n > 130) return false;
        if (r.below((unsigned)std::max<unsigned long>(1, M.count / std::max(1, M.samples))) == 0) { ++n_sampled; return true; }
        return false;
    }
    void combo(const Entry<F> * e, unsigned n) { combos.insert(std::string(Ty<F>::name()) + e->op + "/" + e->kinds + "/" + e->form + std::to_string(n > 64 ? n / 64 * 64 : n)); }

    // ---- one call against its definition ----
    void call() {
        int x = (int)r.below(100);
        if (x < M.pan) return pan();
        if (x < M.pan + M.red) return reduce();
        if (x < M.pan + M.red + M.meter) return meter();
        const Entry<F> * e = pick();
        unsigned n = length(e->form, e->ct);
        Arg<F> a[4]; prepare(e, n, a, has("plus,minus,times,slope,add", e->op));
        if (is(e->op, "exp") && n > 200 && std::fabs(a[0].s) != 1) a[0].s = -1;          // the exact value of a long curve is too long a number
        const bool dst_al = strchr("scxX", e->form), src_al = strchr("scyY", e->form);
        const bool copy = is(e->op, "copy"), add = is(e->op, "add");
        Win d = place(5, n * sizeof(F), sizeof(F), dst_al, r), w[4];
        F * out = (F *)d.p(); bool loaded_d = false; int idx[4];
        for (unsigned i = 0; i != n; ++i) out[i] = value<F>(r, add ? cls() : (int)AUDIO);
        for (int k = 0; k != e->nargs; ++k) {
            idx[k] = -1;
            if (e->kinds[k] != 'p') continue;
            if (!copy && (int)r.below(100) < M.inplace && (dst_al || !src_al)) {            // in place
                w[k] = d; idx[k] = 5; a[k].p = out;
                if (!loaded_d && !add) memcpy(out, buf[k], n * sizeof(F)); else memcpy(buf[k], out, n * sizeof(F));
                loaded_d = true;
            } else if (k && idx[k-1] == k-1 && r.chance(15)) { w[k] = w[k-1]; idx[k] = k - 1; a[k].p = a[k-1].p; memcpy(buf[k], buf[k-1], n * sizeof(F)); if (approximated(e->op)) fixdomain(e, a, n, k, w[k]); }
            else { w[k] = place(k, n * sizeof(F), sizeof(F), src_al, r); idx[k] = k; a[k].p = (F *)w[k].p(); memcpy(w[k].p(), buf[k], n * sizeof(F)); }
        }
        if (approximated(e->op) && loaded_d) for (int k = 0; k != e->nargs; ++k) if (idx[k] == 5) fixdomain(e, a, n, k, d);
        memcpy(buf[6], out, n * sizeof(F));
        std::set<int> used; used.insert(5); for (int k = 0; k != e->nargs; ++k) if (idx[k] >= 0) used.insert(idx[k]);
        commit(d); for (int k = 0; k != e->nargs; ++k) if (idx[k] >= 0 && idx[k] != 5) commit(w[k]);
        int sig = guarded([&] { e->fn(out, a, n); });
        bool full = n_trials % 61 == 0; size_t stray = window_stray(d, true, full);
        for (int k = 0; k != e->nargs; ++k) if (idx[k] >= 0 && idx[k] != 5) stray += window_stray(w[k], false, full);
        std::vector<LD> refs;
        bool o = sig || stray || odd(e, a, n, out, buf[6], refs);
        combo(e, n);
        if (want(o, n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + e->op + e->kinds + e->form)) {
            std::map<int, int> num; std::string ev;
            for (int u : used) { int q = (int)num.size(); num[u] = q; if (u != 5 || loaded_d || add) { const F * src = u == 5 ? buf[6] : buf[u]; ev += "{\"e\":\"load\",\"b\":" + std::to_string(q) + ",\"d\":" + words(src, n) + "},"; } }
            char head[256];
            snprintf(head, sizeof head, "{\"e\":\"call\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"d\":%d,\"o\":0,\"a\":[", e->op, e->form, n, num[5]);
            ev += head;
            for (int k = 0; k != e->nargs; ++k) { if (k) ev += ","; ev += argjson(e->kinds[k], idx[k] >= 0 ? num[idx[k]] : 0, a[k]); }
            ev += "],\"out\":" + words(out, n) + ",\"stray\":" + std::to_string(stray) + ",\"sig\":" + std::to_string(sig);
            if (!refs.empty()) ev += ",\"ref\":" + refwords(refs);
            printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":%d,\"cap\":%u,\"ev\":[%s}]}\n", Ty<F>::name(), cfg, (int)num.size(), n, ev.c_str());
        }
        if (o) resync(); else commit(d);
    }
    // pow with both arguments in one buffer: keep it within the domain
    void fixdomain(const Entry<F> * e, Arg<F> * a, unsigned n, int, Win const & w) {
        if (e->nargs < 2) return;
        F * p = (F *)w.p();
        for (unsigned i = 0; i != n; ++i) p[i] = F(0.5 + r.unit());
        for (int k = 0; k != e->nargs; ++k) {
            if (e->kinds[k] == 'p' && a[k].p == p) memcpy(buf[k], p, n * sizeof(F));
            else if (e->kinds[k] == 's') a[k].v = F(1.5);
            else if (e->kinds[k] == 'p') for (unsigned i = 0; i != n; ++i) { buf[k][i] = F(0.5 + r.unit()); ((F *)a[k].p)[i] = buf[k][i]; }
        }
    }
    void pan() {
        static const char forms[] = "vvsssc";
        char f = forms[r.below(6)]; bool ramps = r.chance(50), al = f != 'v';
        unsigned n = f == 'c' ? 16u << r.below(3) : length(f, 0);
        const size_t bytes = n * sizeof(F);
        int c = cls(); fill(buf[0], n, c);
        Win w = place(0, bytes, sizeof(F), al, r), d0 = place(1, bytes, sizeof(F), al, r), d1 = place(2, bytes, sizeof(F), al, r);
        if ((int)r.below(100) < M.inplace) { if (r.chance(50)) d0 = w; else d1 = w; }
        memcpy(w.p(), buf[0], bytes);
        commit(w);
        Arg<F> g0, g1; memset(&g0, 0, sizeof g0); memset(&g1, 0, sizeof g1);
        if (ramps) { ramp(g0, true, n); ramp(g1, true, n); } else { g0.v = r.chance(15) ? plain() : value<F>(r, c); g1.v = r.chance(15) ? plain() : value<F>(r, cls()); }
        F * p0 = (F *)d0.p(), * p1 = (F *)d1.p(); const F * in = (F *)w.p();
        int sig = guarded([&] {
            if (!ramps) switch (f) {
                case 'v': nova::pan2_vec(p0, p1, in, g0.v, g1.v, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, in, g0.v, g1.v, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, in, g0.v, g1.v); else if (n == 32) nova::pan2_vec_simd<32>(p0, p1, in, g0.v, g1.v); else nova::pan2_vec_simd<64>(p0, p1, in, g0.v, g1.v);
            } else switch (f) {
                case 'v': nova::pan2_vec(p0, p1, in, g0.v, g0.s, g1.v, g1.s, n); break;
                case 's': nova::pan2_vec_simd(p0, p1, in, g0.v, g0.s, g1.v, g1.s, n); break;
                default: if (n == 16) nova::pan2_vec_simd<16>(p0, p1, in, g0.v, g0.s, g1.v, g1.s); else if (n == 32) nova::pan2_vec_simd<32>(p0, p1, in, g0.v, g0.s, g1.v, g1.s); else nova::pan2_vec_simd<64>(p0, p1, in, g0.v, g0.s, g1.v, g1.s);
            }
        });
        bool full = n_trials % 61 == 0;
        size_t stray = window_stray(d0, true, full) + window_stray(d1, true, full);
        if (w.a != d0.a && w.a != d1.a) stray += window_stray(w, false, full);
        bool o = sig || stray;
        for (int ch = 0; ch != 2 && !o; ++ch) {
            Arg<F> const & g = ch ? g1 : g0; const F * p = ch ? p1 : p0; bool ex = !ramps || exact_ramp(g, n);
            for (unsigned i = 0; i != n && !o; ++i) {
                LD gain = (LD)g.v + (ramps ? (LD)i * g.s : 0);
                if (ex) { LD as[2] = { buf[0][i], gain }; o = suspicious<F>("times", as, 2, p[i]); }
                else { LD m = fabsl(buf[0][i]) * (fabsl(g.v) + (i + 16) * fabsl(g.s)); if (m == m && m < std::numeric_limits<F>::max() / 4) o = !(fabsl(p[i] - buf[0][i] * gain) <= (i + 2) * std::numeric_limits<F>::epsilon() / 2 * m + std::numeric_limits<F>::denorm_min()); }
            }
        }
        combos.insert(std::string(Ty<F>::name()) + "pan" + f + (ramps ? "r" : "s") + std::to_string(n));
        if (want(o, n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + "pan" + f)) {
            char K = ramps ? 'r' : 's';
            int q0 = d0.a == 0 ? 0 : 1, q1 = d1.a == 0 ? 0 : 2;
            printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":3,\"cap\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"pan\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"d0\":%d,\"o0\":0,\"d1\":%d,\"o1\":0,\"g0\":%s,\"g1\":%s,\"out0\":%s,\"out1\":%s,\"stray\":%zu,\"sig\":%d}]}\n",
                Ty<F>::name(), cfg, n, words(buf[0], n).c_str(), f, n, q0, q1, argjson(K, 0, g0).c_str(), argjson(K, 0, g1).c_str(), words(p0, n).c_str(), words(p1, n).c_str(), stray, sig);
        }
        if (o) resync(); else { commit(d0); commit(d1); }
    }
    // data without NaN, with the extremes anywhere
    void metered(F * p, unsigned n) {
        int c = M.cls == ANY ? (r.chance(20) ? (int)FINITE : 1 + (int)r.below(3)) : M.cls;
        F sc = std::ldexp(F(1), r.range(-6, 3));
        for (unsigned i = 0; i != n; ++i) { F v; do v = value<F>(r, c); while (v != v); p[i] = c == FINITE ? v : v * sc; }
        switch (r.below(5)) {
        case 0: for (unsigned i = 0; i != n; ++i) p[i] = std::fabs(p[i]); break;
        case 1: for (unsigned i = 0; i != n; ++i) p[i] = -std::fabs(p[i]); break;
        case 2: case 3: { F v = F(0.01) * F(r.unit()); for (unsigned i = 0; i != n; ++i) p[i] = r.chance(50) ? v : -v; p[r.below(n)] = r.chance(50) ? F(3) : F(-3); break; }   // one outlier
        default: break;
        }
        if (r.chance(3)) p[r.below(n)] = r.chance(50) ? std::numeric_limits<F>::infinity() : -std::numeric_limits<F>::infinity();
        if (r.chance(6)) { F v; do v = special<F>(r); while (v != v); unsigned k = r.chance(50) ? r.below(n) : n; for (unsigned i = 0; i != n; ++i) if (i != k) p[i] = v; }      // (almost) nothing but one value
    }
    bool reduction(int k, bool simd, const F * in, unsigned n, F & r1, F & r2) {
        return guarded([&] {
            if (simd) switch (k) {
                case 0: r1 = nova::horizontal_max_vec_simd(in, n); break;
                case 1: r1 = nova::horizontal_min_vec_simd(in, n); break;
                case 2: r1 = nova::horizontal_sum_vec_simd(in, n); break;
                case 3: nova::horizontal_minmax_vec_simd(r1, r2, in, n); break;
                case 4: nova::horizontal_maxsum_vec_simd(r1, r2, in, n); break;
            } else switch (k) {
                case 0: r1 = nova::horizontal_max_vec(in, n); break;
                case 1: r1 = nova::horizontal_min_vec(in, n); break;
                case 2: r1 = nova::horizontal_sum_vec(in, n); break;
                case 3: nova::horizontal_minmax_vec(r1, r2, in, n); break;
                case 4: nova::horizontal_maxsum_vec(r1, r2, in, n); break;
            }
        });
    }
    void reduce() {
        static const char * ops[] = { "max", "min", "sum", "minmax", "maxsum" };
        int k = r.below(5); bool simd = r.chance(60);
        const unsigned vs = nova::vec<F>::size;
        unsigned n = !simd ? length('v', 0) : (int)r.below(100) >= M.big ? vs * (1 + r.below(24)) : r.chance(40) ? round_length(vs) : vs * (1 + r.below(maxn() / vs));
        metered(buf[0], n);
        bool inf = false;
        for (unsigned i = 0; i != n; ++i) if (std::fabs(buf[0][i]) > std::numeric_limits<F>::max() / 8192) inf = true;
        if (inf && (k == 2 || k == 4)) k = 0;                              // sums that may overflow on the way
        Win w = place(0, n * sizeof(F), sizeof(F), simd, r);
        memcpy(w.p(), buf[0], n * sizeof(F)); commit(w);
        F r1 = 0, r2 = 0;
        int sig = reduction(k, simd, (F *)w.p(), n, r1, r2);
        size_t stray = window_stray(w, false, n_trials % 61 == 0);
        F mx = *std::max_element(buf[0], buf[0] + n), mn = *std::min_element(buf[0], buf[0] + n); LD s = 0, m = 0;
        for (unsigned i = 0; i != n; ++i) { s += buf[0][i]; m += fabsl(buf[0][i]); }
        auto sumok = [&](F v) { return fabsl(v - s) <= (n + 1) * std::numeric_limits<F>::epsilon() / 2 * m; };
        bool o = sig || stray;
        switch (k) { case 0: o |= r1 != mx; break; case 1: o |= r1 != mn; break; case 2: o |= !sumok(r1); break; case 3: o |= r1 != mn || r2 != mx; break; default: o |= r1 != mx || !sumok(r2); }
        combos.insert(std::string(Ty<F>::name()) + ops[k] + (simd ? "s" : "v") + std::to_string(n));
        if (want(o, n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + ops[k] + (simd ? "s" : "v")))
            printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":1,\"cap\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"red\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"r1\":%s,\"r2\":%s,\"stray\":%zu,\"sig\":%d}]}\n",
                Ty<F>::name(), cfg, n, words(buf[0], n).c_str(), ops[k], simd ? 's' : 'v', n, word1(r1).c_str(), word1(r2).c_str(), stray, sig);
        if (o) resync();
    }
    void meter() {
        bool simd = r.chance(60), rms = r.chance(50);
        unsigned n = length(simd ? 's' : 'v', 0);
        metered(buf[0], n);
        if (rms) for (unsigned i = 0; i != n; ++i) if (!(std::fabs(buf[0][i]) < std::sqrt(std::numeric_limits<F>::max()) / 128)) buf[0][i] = F(0.5);
        F peak = r.chance(50) ? F(0) : F(std::fabs(value<F>(r, MIXED))), sq = r.chance(50) ? F(0) : F(std::fabs(value<F>(r, MIXED)));
        const F pk0 = peak, sq0 = sq;
        Win w = place(0, n * sizeof(F), sizeof(F), simd, r);
        memcpy(w.p(), buf[0], n * sizeof(F)); commit(w);
        const F * in = (F *)w.p(); F ret = 0;
        int sig = guarded([&] {
            if (rms) { if (simd) nova::peak_rms_vec_simd(in, &peak, &sq, n); else nova::peak_rms_vec(in, &peak, &sq, n); }
            else ret = simd ? nova::peak_vec_simd(in, &peak, n) : nova::peak_vec(in, &peak, n);
        });
        size_t stray = window_stray(w, false, n_trials % 61 == 0);
        F mx = pk0; LD e = sq0;
        for (unsigned i = 0; i != n; ++i) { mx = std::max<F>(mx, std::fabs(buf[0][i])); e += (LD)buf[0][i] * buf[0][i]; }
        bool o = sig || stray || peak != mx || (rms ? !(fabsl(sq - e) <= (n + 2) * std::numeric_limits<F>::epsilon() / 2 * e + (n + 2) * std::numeric_limits<F>::denorm_min()) : ret != std::fabs(buf[0][n - 1]) || sq != sq0);
        combos.insert(std::string(Ty<F>::name()) + (rms ? "rms" : "peak") + (simd ? "s" : "v") + std::to_string(n));
        if (want(o, n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + (rms ? "rms" : "peak") + (simd ? "s" : "v")))
            printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":1,\"cap\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"mreset\",\"pk\":%s,\"sq\":%s},{\"e\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"pk\":%s,\"sq\":%s,\"ret\":%s,\"stray\":%zu,\"sig\":%d}]}\n",
                Ty<F>::name(), cfg, n, words(buf[0], n).c_str(), word1(pk0).c_str(), word1(sq0).c_str(), rms ? "rms" : "peak", simd ? 's' : 'v', n, word1(peak).c_str(), word1(sq).c_str(), word1(ret).c_str(), stray, sig);
        if (o) resync();
    }

    // ---- agreement ----
    std::string agree(const char * op, unsigned n, const Entry<F> * e, const Arg<F> * a, std::vector<std::string> const & labels, std::vector<std::vector<F> > const & outs, const F * before) {
        std::string s = "{\"e\":\"agree\",\"ty\":\"" + std::string(Ty<F>::name()) + "\",\"cfg\":\"" + cfg + "\",\"op\":\"" + op + "\",\"kinds\":\"" + (e ? e->kinds : "") + "\",\"n\":" + std::to_string(n);
        bool exact = true;
        if (e) for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'r' && !exact_ramp(a[k], n)) exact = false;
        s += std::string(",\"exact\":") + (exact ? "1" : "0") + ",\"ins\":[";
        bool first = true;
        if (before) { s += words(before, n); first = false; }
        if (e) for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] != 'e') {
            std::vector<F> v(n); for (unsigned i = 0; i != n; ++i) { v[i] = F(argat(e, a, k, i)); if (v[i] != v[i]) v[i] = std::numeric_limits<F>::quiet_NaN(); }
            if (!first) s += ","; first = false; s += words(v);
        }
        if (!e) { s += words(buf[0], n); }
        s += "],\"labels\":[";
        for (size_t i = 0; i != labels.size(); ++i) s += (i ? ",\"" : "\"") + labels[i] + "\"";
        s += "],\"outs\":[";
        for (size_t i = 0; i != outs.size(); ++i) s += (i ? "," : "") + words(outs[i]);
        return s + "]}";
    }
    // differ: more than the specification is sure to accept
    // results that are not determined (as in spec/Agree.tla)
    static bool huge(LD v) { return v - v == 0 && fabsl(v) >= (LD)std::numeric_limits<F>::max() / 4; }
    static bool loose(const char * op, const LD * a, int na) {
        bool nan = false; for (int k = 0; k != na; ++k) if (a[k] != a[k]) nan = true;
        if (is(op, "round")) return floorl(a[0] * 2) == a[0] * 2 && floorl(a[0]) != a[0];
        if (is(op, "min") || is(op, "max") || is(op, "sgn")) return nan;
        if (is(op, "clip2")) return nan || a[1] < 0;
        if (is(op, "clip")) return nan || a[1] > a[2];
        if (is(op, "softclip")) return a[0] - a[0] != 0;
        if (is(op, "reciprocal")) return !(fabsl(a[0]) > 4 * std::numeric_limits<F>::min() && fabsl(a[0]) < std::numeric_limits<F>::max() / 8);
        if (is(op, "muladd")) return huge(a[0] * a[1]);
        if (is(op, "mix")) return huge(a[0] * a[1]) || huge(a[2] * a[3]);
        if (is(op, "ampmod")) return (a[0] - a[0] != 0 && fabsl(1 + a[1] * a[2]) <= 4 * (LD)std::numeric_limits<F>::epsilon() * (1 + fabsl(a[1] * a[2]))) || huge(a[1] * a[2]) || huge(a[0] * a[1] * a[2]);
        if (is(op, "sum")) { LD m = 0; for (int k = 0; k != na; ++k) if (a[k] - a[k] == 0) m += fabsl(a[k]); return huge(m); }
        return false;
    }
    bool differ(const Entry<F> * e, const Arg<F> * a, const char * op, std::vector<F> const & x, std::vector<F> const & y) {
        const LD eps = std::numeric_limits<F>::epsilon();
        const bool ap = approximated(op) || is(op, "reciprocal"), comp = is(op, "cube") || is(op, "muladd") || is(op, "ampmod") || is(op, "mix") || is(op, "softclip") || is(op, "sum") || is(op, "exp") || is(op, "energy") || is(op, "hsum");
        for (size_t i = 0; i != x.size(); ++i) {
            if (same(x[i], y[i])) continue;
            if (is(op, "zero") || is(op, "set") || is(op, "copy")) return true;
            LD as[4] = { 0, 0, 0, 0 }, m = 0; bool inexact = false;
            if (e) for (int k = 0; k != e->nargs; ++k) { as[k] = argat(e, a, k, i); m += fabsl(as[k]); if (e->kinds[k] == 'r' && !exact_ramp(a[k], x.size())) inexact = true; }
            if (e && loose(op, as, e->nargs)) continue;
            if (inexact) { if (!(m - m == 0) || fabsl((LD)x[i] - y[i]) <= 2 * (i + 16) * eps * std::max<LD>(fabsl(x[i]), is(op, "times") ? 0 : m)) continue; return true; }
            if (comp && m >= std::numeric_limits<F>::max() / 8) continue;                   // may overflow on the way
            if (ap) { if (suspicious_ref<F>(op, x[i], y[i], true)) return true; }
            else if (is(op, "exp")) { if (!(fabsl((LD)x[i] - y[i]) <= 2 * (i + 16) * eps * fabsl(x[i]))) return true; }
            else if (comp) {
                LD mag = fabsl(x[i]);
                if (is(op, "muladd")) mag = fabsl(as[0] * as[1]) + fabsl(as[2]); else if (is(op, "mix")) mag = fabsl(as[0] * as[1]) + fabsl(as[2] * as[3]); else if (is(op, "sum")) mag = m; else if (is(op, "ampmod")) mag = fabsl(as[0]) * (1 + fabsl(as[1] * as[2])) + fabsl(as[1] * as[2]);
                if (mag - mag == 0 && mag >= std::numeric_limits<F>::max() / 8) continue;
                if (!(fabsl((LD)x[i] - y[i]) <= 4 * eps * mag + 8 * std::numeric_limits<F>::denorm_min())) return true;
            }
            else return true;
        }
        (void)e; return false;
    }
    void place_args(const Entry<F> * e, Arg<F> * a, unsigned n) {
        for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'p') { memcpy(arena[k].data, buf[k], n * sizeof(F)); a[k].p = (F *)arena[k].data; }
    }
    static bool meaningful(const char * op) { return !(is(op, "zero") || is(op, "set") || is(op, "copy") || is(op, "slope")); }
    void forms() {
        const Entry<F> * e0 = pick();
        unsigned n = e0->ct ? e0->ct : r.chance(70) ? spl() * (1 + r.below(8)) : (unsigned[]){ 8, 16, 32, 48, 64 }[r.below(5)];
        if (n % spl()) n = spl() * (1 + n / spl());
        Arg<F> a[4]; prepare(e0, n, a, has("plus,minus,times,slope,add", e0->op));
        place_args(e0, a, n);
        bool add = is(e0->op, "add");
        if (add) fill(buf[6], n, cls());
        std::vector<std::string> labels; std::vector<std::vector<F> > outs;
        std::vector<Entry<F> > & t = table<F>();
        for (size_t i = 0; i != t.size(); ++i) {
            Entry<F> & e = t[i];
            if (!is(e.op, e0->op) || strcmp(e.kinds, e0->kinds) || (e.ct && e.ct != n)) continue;
            F * out = (F *)arena[5].data;
            for (unsigned j = 0; j != n; ++j) out[j] = add ? buf[6][j] : F(77);
            int sig = guarded([&] { e.fn(out, a, n); });
            labels.push_back(std::string(1, e.form) + (sig ? "!" : "") + std::to_string(e.ct));
            outs.push_back(std::vector<F>(out, out + n));
        }
        bool o = false;
        for (size_t i = 1; i < outs.size(); ++i) if (differ(e0, a, e0->op, outs[0], outs[i])) o = true;
        for (size_t i = 0; i != labels.size(); ++i) if (labels[i].find('!') != std::string::npos) o = true;
        combo(e0, n);
        if (outs.size() > 1 && want(o, std::min(n, 130u), std::string(1, sizeof(F) == 4 ? 'f' : 'd') + e0->op + e0->kinds)) printf("%s\n", agree(e0->op, n, e0, a, labels, outs, add ? buf[6] : 0).c_str());
    }
    // whole signal against consecutive blocks
    void split() {
        const unsigned s = spl();
        const Entry<F> * e = 0;
        int x = (int)r.below(100), what = x < M.red ? 1 : x < M.red + M.meter ? 2 : 0;
        if (what || table<F>().empty()) return split_state(what == 1);
        do e = pick(); while (is(e->op, "exp") || e->ct || strchr("xXyY", e->form));
        // block lengths: multiples of s for the SIMD forms, any for the scalar form
        std::vector<const Entry<F> *> alt;
        std::vector<Entry<F> > & t = table<F>();
        for (size_t i = 0; i != t.size(); ++i) if (is(t[i].op, e->op) && !strcmp(t[i].kinds, e->kinds) && !strchr("xXyY", t[i].form)) alt.push_back(&t[i]);
        unsigned blocks = 1 + r.below(5), n = 0; std::vector<std::pair<const Entry<F> *, unsigned> > plan;
        for (unsigned b = 0; b != blocks; ++b) {
            const Entry<F> * q = alt[r.below(alt.size())];
            unsigned len = q->ct ? q->ct : q->form == 'v' ? 1 + r.below(40) : s * (1 + r.below(3));
            bool al = (n * sizeof(F)) % 32 == 0;
            if (!al && strchr("sc", q->form)) { q = 0; for (auto z : alt) if (z->form == 'v') q = z; if (!q) break; len = (32 / sizeof(F)) - n % (32 / sizeof(F)); }
            plan.push_back(std::make_pair(q, len)); n += len;
        }
        if (plan.empty()) return;
        unsigned whole = n;
        if (e->form != 'v' && n % s) { const Entry<F> * q = 0; for (auto z : alt) if (z->form == 'v') q = z; if (!q) return; plan.push_back(std::make_pair(q, s - n % s)); whole = n + s - n % s; }
        n = whole;
        Arg<F> a[4]; prepare(e, n, a, false);
        place_args(e, a, n);
        bool add = is(e->op, "add");
        if (add) fill(buf[6], n, cls());
        F * out = (F *)arena[5].data;
        std::vector<std::string> labels; std::vector<std::vector<F> > outs; std::string lb;
        auto start = [&] { for (unsigned j = 0; j != n; ++j) out[j] = add ? buf[6][j] : F(77); };
        start();
        int sig = guarded([&] { e->fn(out, a, n); });
        outs.push_back(std::vector<F>(out, out + n)); labels.push_back(std::string("whole ") + e->form + (sig ? "!" : ""));
        start();
        unsigned off = 0;
        for (auto & p : plan) {
            Arg<F> b[4]; memcpy(b, a, sizeof b);
            for (int k = 0; k != e->nargs; ++k) { if (e->kinds[k] == 'p') b[k].p = a[k].p + off; if (e->kinds[k] == 'r') b[k].v = F((LD)a[k].v + (LD)off * a[k].s); }
            sig |= guarded([&] { p.first->fn(out + off, b, p.second); });
            lb += std::string(1, p.first->form) + std::to_string(p.second) + " "; off += p.second;
        }
        outs.push_back(std::vector<F>(out, out + n)); labels.push_back(lb + (sig ? "!" : ""));
        bool o = sig || differ(e, a, e->op, outs[0], outs[1]);
        combos.insert(std::string(e->op) + e->kinds + lb);
        if (want(o, n > 130 && n < 260 ? 130 : n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + e->op + e->kinds + e->form)) printf("%s\n", agree(e->op, n, e, a, labels, outs, add ? buf[6] : 0).c_str());
    }
    void split_state(bool red) {
        const unsigned s = spl(), vs = nova::vec<F>::size;
        unsigned total = s * (1 + r.below(8)), n = total;
        metered(buf[0], n);
        for (unsigned i = 0; i != n; ++i) if (!(std::fabs(buf[0][i]) < std::sqrt(std::numeric_limits<F>::max()) / 128)) buf[0][i] = F(0.5);
        memcpy(arena[0].data, buf[0], n * sizeof(F));
        const F * in = (F *)arena[0].data;
        F w1 = 0, w2 = 0, b1 = 0, b2 = 0; const char * o1, * o2; bool first = true;
        int kind = red ? (r.chance(50) ? 3 : 4) : 5; int sig = 0;
        auto run = [&](const F * p, unsigned m, bool simd, F & x, F & y, bool fresh) {
            if (kind == 5) { sig |= guarded([&] { if (simd) nova::peak_rms_vec_simd(p, &x, &y, m); else nova::peak_rms_vec(p, &x, &y, m); }); return; }
            F u = 0, v = 0; sig |= reduction(kind, simd, p, m, u, v);
            if (fresh) { x = u; y = v; }
            else if (kind == 3) { x = std::min(x, u); y = std::max(y, v); } else { x = std::max(x, u); y = F((LD)y + v); }
        };
        run(in, n, r.chance(60), w1, w2, true);
        std::string lb;
        for (unsigned off = 0; off < n; ) {
            bool al = off * sizeof(F) % 32 == 0; unsigned q = kind == 5 ? s : vs, left = n - off;
            bool simd = al && left >= q && r.chance(60);
            unsigned len = simd ? q * (1 + r.below(std::min(3u, left / q))) : 1 + r.below(std::min(left, 20u));
            if (!simd && r.chance(50)) { unsigned g = 32 / sizeof(F), to = g - off % g; if (to <= left) len = to; }
            run(in + off, len, simd, b1, b2, first); first = false;
            lb += std::string(simd ? "s" : "v") + std::to_string(len) + " "; off += len;
        }
        o1 = kind == 5 ? "peak" : kind == 3 ? "hmin" : "hmax"; o2 = kind == 5 ? "energy" : kind == 3 ? "hmax" : "hsum";
        std::vector<std::string> labels; labels.push_back("whole"); labels.push_back(lb);
        std::vector<std::vector<F> > x1, x2;
        x1.push_back(std::vector<F>(1, w1)); x1.push_back(std::vector<F>(1, b1)); x2.push_back(std::vector<F>(1, w2)); x2.push_back(std::vector<F>(1, b2));
        LD mag = 0; for (unsigned i = 0; i != n; ++i) mag += kind == 5 ? (LD)buf[0][i] * buf[0][i] : fabsl(buf[0][i]);
        bool o = sig || w1 != b1 || (is(o2, "hmax") ? w2 != b2 : !(fabsl((LD)w2 - b2) <= (n / 2 + 4) * std::numeric_limits<F>::epsilon() * mag));
        combos.insert(std::string(o2) + lb);
        if (want(o, n > 130 && n < 300 ? 130 : n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + o2)) { printf("%s\n", agree(o1, n, 0, 0, labels, x1, 0).c_str()); printf("%s\n", agree(o2, n, 0, 0, labels, x2, 0).c_str()); }
    }
    static bool nv_undetermined(const Entry<F> * e, const LD * as) { return e->nargs && !strchr(e->kinds, 'e') && Micro::loose(e->op, as, e->nargs); }
    // calls that do not depend on the build: lengths are multiples of 64, the random numbers too
    void cross(unsigned long id, std::set<unsigned long> const * dump, FILE * hashes) {
        const Entry<F> * e = pick(); unsigned n = 64 * (1 + r.below(2));
        std::vector<Entry<F> > & t = table<F>();
        std::vector<const Entry<F> *> alt;
        for (size_t i = 0; i != t.size(); ++i) if (is(t[i].op, e->op) && !strcmp(t[i].kinds, e->kinds) && (!t[i].ct || t[i].ct % 32 == 0)) alt.push_back(&t[i]);
        if (alt.empty()) return;
        const Entry<F> * q = alt[r.below(alt.size())]; if (q->ct) n = q->ct;
        Arg<F> a[4]; prepare(e, n, a, false);
        place_args(e, a, n);
        bool add = is(e->op, "add"); if (add) fill(buf[6], n, cls());
        F * out = (F *)arena[5].data;
        for (unsigned j = 0; j != n; ++j) out[j] = add ? buf[6][j] : F(77);
        int sig = guarded([&] { q->fn(out, a, n); });
        uint64_t h = 1469598103934665603ull ^ (uint64_t)sig;
        for (unsigned i = 0; i != n; ++i) {
            LD as[4]; for (int k = 0; k != e->nargs; ++k) as[k] = argat(e, a, k, i);
            if (nv_undetermined(e, as)) continue;
            F v = out[i]; if (v == 0) v = 0; if (v != v) v = std::numeric_limits<F>::quiet_NaN(); h = (h ^ tobits<F>(v)) * 1099511628211ull; }
        bool loose = approximated(e->op) || has("cube,muladd,ampmod,mix,softclip,sum,exp,reciprocal", e->op);
        std::vector<LD> refs; bool o = hashes && (sig || odd(q, a, n, out, buf[6], refs));
        ++n_trials; n_elems += n; combo(q, n); if (o) ++n_odd;
        if (hashes) fprintf(hashes, "%lu %c %016llx\n", id, o ? 'o' : loose ? 'l' : 'e', (unsigned long long)h);
        bool samp = r.below((unsigned)std::max<unsigned long>(1, M.count / std::max(1, M.samples))) == 0;
        if (dump ? dump->count(id) != 0 : samp) {
            if (!dump) ++n_sampled;
            std::vector<std::string> labels(1, std::string(cfg) + (sig ? "!" : "")); std::vector<std::vector<F> > outs(1, std::vector<F>(out, out + n));
            std::string s = agree(e->op, n, e, a, labels, outs, add ? buf[6] : 0);
            printf("%lu %s\n", id, s.c_str());
        }
    }
    // ---- very long calls ----
    // The elements are independent of each other, so the call restricted to a window of its elements (with the ramps
    // starting at their value there) is itself a call that the specification has to permit.  What is compared natively,
    // a long call with calls on blocks of 2048, only chooses the window.
    struct Big { F * p; size_t len; void alloc(size_t n) { size_t b = (n * sizeof(F) + 4095) / 4096 * 4096; char * m = (char *)mmap(0, b + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); _exit(3); } mprotect(m + 4096, b, PROT_READ | PROT_WRITE); len = b / sizeof(F); p = (F *)(m + 4096); } F * at_end(size_t n) { return p + len - n; } };
    Big big[6], expect; enum { GN = (1 << 20) + 16384, PERIOD = 4093, BLK = 2048 };
    void tile(F * dst, const F * src, unsigned n) { for (unsigned i = 0; i < n; i += PERIOD) memcpy(dst + i, src, std::min<unsigned>(PERIOD, n - i) * sizeof(F)); }
    unsigned giant_n(char form) {
        const unsigned u = 64;                                                  // keeps every form legal and the buffers aligned
        unsigned n = (1u << 20) + u * (1 + r.below(40)); if (r.chance(15)) n = (1u << (14 + r.below(6))) + u * r.below(3);
        return form == 'v' ? n + 16 * r.below(2) : n;
    }
    void gramp(Arg<F> & a) { a.v = F(r.range(-64, 64)) / 8; a.s = F(r.range(-4, 4)) / 16; }
    Arg<F> shifted(char K, Arg<F> a, unsigned k) { if (K == 'p') a.p += k; else if (K == 'r') a.v = a.v + F(k) * a.s; else if (K == 'e' && k % 2 && a.s < 0) a.v = -a.v; return a; }
    unsigned first_difference(const F * x, const F * y, unsigned n) {
        for (unsigned i = 0; i < n; i += BLK) { unsigned m = std::min<unsigned>(BLK, n - i); if (memcmp(x + i, y + i, m * sizeof(F))) for (unsigned j = i; ; ++j) if (tobits(x[j]) != tobits(y[j])) return j; }
        return n;
    }
    unsigned window(unsigned i, unsigned n, unsigned w) { unsigned k = i / spl() * spl(); if (k >= spl()) k -= spl(); return std::min(k, n - w); }
    void giant(unsigned long) {
        for (int i = 0; i != 6; ++i) big[i].alloc(GN); expect.alloc(GN);
        std::vector<Entry<F> > & t = table<F>();
        for (size_t z = 0; z != t.size(); ++z) {
            const Entry<F> * e = &t[z];
            if (e->ct || (M.only && !has(M.only, e->op)) || (M.kinds && !strpbrk(e->kinds, M.kinds)) || (M.forms && !strchr(M.forms, e->form))) continue;
            giant_call(e);
        }
        for (int k = 0; k < M.pan; ++k) giant_pan();
        for (int k = 0; k < M.red; ++k) giant_state(false);
        for (int k = 0; k < M.meter; ++k) giant_state(true);
    }
    void giant_call(const Entry<F> * e) {
        unsigned n = giant_n(e->form), w = 2 * spl(); const bool add = is(e->op, "add");
        if (approximated(e->op) && !r.chance(5)) n = 65536 + 64 * r.below(100);
        Arg<F> a[4]; prepare(e, PERIOD, a, false);
        for (int k = 0; k != e->nargs; ++k) { if (e->kinds[k] == 'r') gramp(a[k]); if (e->kinds[k] == 'e') { a[k].v = F(r.range(-50, 50)); a[k].s = r.chance(50) ? F(1) : F(-1); } }
        if (add) for (unsigned i = 0; i != PERIOD; ++i) buf[6][i] = F(r.range(-64, 64)) / 4; else for (unsigned i = 0; i != PERIOD; ++i) buf[6][i] = F(77.25) + i % 7;
        F * out = big[5].at_end(n), * ex = expect.at_end(n);
        tile(out, buf[6], n); tile(ex, buf[6], n);
        F * below = out - 64; for (int i = 0; i != 64 && out != big[5].p; ++i) below[i] = F(i);
        for (int k = 0; k != e->nargs; ++k) if (e->kinds[k] == 'p') { F * p = big[k].at_end(n); tile(p, buf[k], n); a[k].p = p; }
        int sig = guarded([&] { e->fn(out, a, n); }); size_t stray = 0;
        for (int i = 0; i != 64; ++i) if (below[i] != F(i)) ++stray;
        int sig2 = guarded([&] { for (unsigned b = 0; b < n; b += BLK) { Arg<F> q[4]; for (int k = 0; k != e->nargs; ++k) q[k] = shifted(e->kinds[k], a[k], b); e->fn(ex + b, q, std::min<unsigned>(BLK, n - b)); } });
        unsigned d = first_difference(out, ex, n); bool o = sig || sig2 || stray || d != n;
        combo(e, n); ++n_trials; n_elems += n;
        if (o) { ++n_odd; if (n_shown >= (unsigned long)M.maxodd) return; ++n_shown; } else { if (r.below((unsigned)std::max<size_t>(1, table<F>().size() / std::max(1, M.samples / 4))) != 0) return; ++n_sampled; d = r.below(n); }
        unsigned k0 = window(std::min(d, n - 1), n, w), nb = 1; std::string ev, as; std::vector<LD> refs;
        if (add) ev += "{\"e\":\"load\",\"b\":0,\"d\":" + words(std::vector<F>(tiled(buf[6], k0, w))) + "},";
        for (int k = 0; k != e->nargs; ++k) {
            int b = 0;
            if (e->kinds[k] == 'p') { b = nb++; ev += "{\"e\":\"load\",\"b\":" + std::to_string(b) + ",\"d\":" + words(tiled(buf[k], k0, w)) + "},"; }
            as += (k ? "," : "") + argjson(e->kinds[k], b, shifted(e->kinds[k], a[k], k0));
        }
        if (approximated(e->op)) for (unsigned i = k0; i != k0 + w; ++i) { LD v[4]; for (int k = 0; k != e->nargs; ++k) v[k] = e->kinds[k] == 'p' ? (LD)buf[k][i % PERIOD] : (LD)a[k].v + (e->kinds[k] == 'r' ? (LD)i * a[k].s : 0); refs.push_back(reference(e->op, v)); }
        printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":%u,\"cap\":%u,\"whole\":%u,\"first\":%u,\"ev\":[%s{\"e\":\"call\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"d\":0,\"o\":0,\"a\":[%s],\"out\":%s,\"stray\":%zu,\"sig\":%d%s}]}\n", Ty<F>::name(), cfg, nb, w, n, k0, ev.c_str(), e->op, e->form, w, as.c_str(),
            words(out + k0, w).c_str(), stray, sig ? sig : sig2, refs.empty() ? "" : (",\"ref\":" + refwords(refs)).c_str());
    }
    std::vector<F> tiled(const F * b, unsigned k, unsigned w) { std::vector<F> v(w); for (unsigned i = 0; i != w; ++i) v[i] = b[(k + i) % PERIOD]; return v; }
    void giant_pan() {
        const char f = r.chance(60) ? 's' : 'v'; const bool ramps = r.chance(60); const unsigned n = giant_n(f), w = 2 * spl();
        for (unsigned i = 0; i != PERIOD; ++i) buf[0][i] = value<F>(r, INTS);
        Arg<F> g[2]; memset(g, 0, sizeof g); for (int c = 0; c != 2; ++c) { gramp(g[c]); if (!ramps) g[c].s = 0; }
        F * in = big[0].at_end(n), * out[2] = { big[1].at_end(n), big[2].at_end(n) }; tile(in, buf[0], n);
        for (int c = 0; c != 2; ++c) for (unsigned i = 0; i != n; ++i) out[c][i] = F(77.25);
        auto go = [&](F * o0, F * o1, const F * i, F v0, F v1, unsigned m) { if (ramps) { if (f == 's') nova::pan2_vec_simd(o0, o1, i, v0, g[0].s, v1, g[1].s, m); else nova::pan2_vec(o0, o1, i, v0, g[0].s, v1, g[1].s, m); } else { if (f == 's') nova::pan2_vec_simd(o0, o1, i, v0, v1, m); else nova::pan2_vec(o0, o1, i, v0, v1, m); } };
        int sig = guarded([&] { go(out[0], out[1], in, g[0].v, g[1].v, n); });
        F * e0 = expect.at_end(n), * e1 = big[4].at_end(n);
        int sig2 = guarded([&] { for (unsigned b = 0; b < n; b += BLK) go(e0 + b, e1 + b, in + b, g[0].v + F(b) * g[0].s, g[1].v + F(b) * g[1].s, std::min<unsigned>(BLK, n - b)); });
        unsigned d = std::min(first_difference(out[0], e0, n), first_difference(out[1], e1, n)); bool o = sig || sig2 || d != n;
        ++n_trials; n_elems += n; combos.insert(std::string("giantpan") + f);
        if (o) { ++n_odd; if (n_shown >= (unsigned long)M.maxodd) return; ++n_shown; } else { ++n_sampled; d = r.below(n); }
        unsigned k0 = window(std::min(d, n - 1), n, w); const char K = ramps ? 'r' : 's';
        printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":3,\"cap\":%u,\"whole\":%u,\"first\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"pan\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"d0\":1,\"o0\":0,\"d1\":2,\"o1\":0,\"g0\":%s,\"g1\":%s,\"out0\":%s,\"out1\":%s,\"stray\":0,\"sig\":%d}]}\n", Ty<F>::name(), cfg, w, n, k0, words(tiled(buf[0], k0, w)).c_str(), f, w,
            argjson(K, 0, shifted(K, g[0], k0)).c_str(), argjson(K, 0, shifted(K, g[1], k0)).c_str(), words(out[0] + k0, w).c_str(), words(out[1] + k0, w).c_str(), sig ? sig : sig2);
    }
    // reductions and meters: all elements but a window and the end are zero, so that they deliver what they deliver for the window followed by the end
    void giant_state(bool metering) {
        static const char * ops[] = { "max", "min", "sum", "minmax", "maxsum" };
        const bool simd = r.chance(65), rms = r.chance(50); const unsigned n = giant_n(simd ? 's' : 'v'), w = 16; const int k = r.below(5);
        F * in = big[0].at_end(n); for (unsigned i = 0; i != n; ++i) in[i] = 0;
        unsigned k0 = r.below((n - w - 64) / w) * w; if (r.chance(30)) k0 = (n - w - 64) / w * w;
        for (unsigned i = 0; i != w; ++i) if (r.chance(70)) in[k0 + i] = F(r.range(-64, 64)) / 4;
        for (unsigned i = n - w; i != n; ++i) if (r.chance(50)) in[i] = F(r.range(-64, 64)) / 4;
        std::vector<F> shown(in + k0, in + k0 + w); shown.insert(shown.end(), in + n - w, in + n); shown[w - 1] = in[k0 + w - 1]; shown.insert(shown.begin(), w, F(0));
        F r1 = 0, r2 = 0, pk = r.chance(50) ? F(0) : F(r.below(40)), sq = r.chance(50) ? F(0) : F(r.below(4000)), ret = 0; const F pk0 = pk, sq0 = sq;
        ++n_trials; n_elems += n; ++n_sampled; combos.insert(std::string(metering ? "giantmeter" : ops[k]) + (simd ? "s" : "v"));
        const unsigned m = shown.size();
        if (!metering) {
            int sig = reduction(k, simd, in, n, r1, r2);
            printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":1,\"cap\":%u,\"whole\":%u,\"first\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"red\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"r1\":%s,\"r2\":%s,\"stray\":0,\"sig\":%d}]}\n",
                Ty<F>::name(), cfg, m, n, k0, words(shown).c_str(), ops[k], simd ? 's' : 'v', m, word1(r1).c_str(), word1(r2).c_str(), sig);
            return;
        }
        int sig = guarded([&] {
            if (rms) { if (simd) nova::peak_rms_vec_simd(in, &pk, &sq, n); else nova::peak_rms_vec(in, &pk, &sq, n); }
            else ret = simd ? nova::peak_vec_simd(in, &pk, n) : nova::peak_vec(in, &pk, n);
        });
        printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":1,\"cap\":%u,\"whole\":%u,\"first\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"mreset\",\"pk\":%s,\"sq\":%s},{\"e\":\"%s\",\"f\":\"%c\",\"n\":%u,\"b\":0,\"o\":0,\"pk\":%s,\"sq\":%s,\"ret\":%s,\"stray\":0,\"sig\":%d}]}\n",
            Ty<F>::name(), cfg, m, n, k0, words(shown).c_str(), word1(pk0).c_str(), word1(sq0).c_str(), rms ? "rms" : "peak", simd ? 's' : 'v', m, word1(pk).c_str(), word1(sq).c_str(), word1(ret).c_str(), sig);
    }
    // every stride-th bit pattern through every form of the unary operations
    void sweep() {
        std::vector<Entry<F> > & t = table<F>();
        std::vector<const Entry<F> *> es;
        for (size_t i = 0; i != t.size(); ++i) if (t[i].nargs == 1 && !strcmp(t[i].kinds, "p") && !t[i].ct && strchr("vs", t[i].form) && !is(t[i].op, "copy") && !is(t[i].op, "add") && (!M.only || has(M.only, t[i].op)) && (!M.forms || strchr(M.forms, t[i].form))) es.push_back(&t[i]);
        const unsigned n = 128; unsigned k = 0;
        F * out = (F *)arena[5].data, * in = (F *)arena[0].data; Arg<F> a[4]; memset(a, 0, sizeof a); a[0].p = in;
        for (const Entry<F> * e : es) {
            const bool ap = approximated(e->op);
            auto flush = [&] {
                while (k != n) { buf[0][k] = buf[0][0]; ++k; }
                memcpy(in, buf[0], n * sizeof(F));
                int sig = guarded([&] { e->fn(out, a, n); });
                std::vector<LD> refs;
                bool o = sig || odd(e, a, n, out, out, refs);
                if (want(o, n, std::string(1, sizeof(F) == 4 ? 'f' : 'd') + e->op + e->form)) {
                    printf("{\"ty\":\"%s\",\"cfg\":\"%s\",\"nb\":2,\"cap\":%u,\"ev\":[{\"e\":\"load\",\"b\":0,\"d\":%s},{\"e\":\"call\",\"op\":\"%s\",\"f\":\"%c\",\"n\":%u,\"d\":1,\"o\":0,\"a\":[{\"k\":\"p\",\"b\":0,\"o\":0}],\"out\":%s,\"stray\":0,\"sig\":%d%s}]}\n",
                        Ty<F>::name(), cfg, n, words(buf[0], n).c_str(), e->op, e->form, n, words(out, n).c_str(), sig, refs.empty() ? "" : (",\"ref\":" + refwords(refs)).c_str());
                }
                k = 0;
            };
            uint64_t lim = 1ull << 32;
            for (uint64_t b = M.first % M.stride; b < lim; b += M.stride) {
                F x = sizeof(F) == 4 ? F(frombits<float>((uint32_t)b)) : frombits<F>((typename Ty<F>::bits)((b << (sizeof(F) == 8 ? 32 : 0)) | (sizeof(F) == 8 ? (r.next() & 0xffffffffu) : 0)));
                if (ap && !indomain(e->op, x)) continue;
                buf[0][k++] = x; if (k == n) flush();
            }
            if (k) flush();
            combos.insert(std::string(e->op) + e->form);
        }
    }
    static bool indomain(const char * op, F x) {
        F ax = std::fabs(x); const F nmin = std::numeric_limits<F>::min(), nmax = std::numeric_limits<F>::max();
        if (!(ax <= nmax)) return false;
        if (is(op, "sin") || is(op, "cos") || is(op, "tan")) return ax <= 8192;
        if (is(op, "asin") || is(op, "acos")) return ax <= 1;
        if (is(op, "atan")) return true;
        if (is(op, "tanh")) return true;
        if (is(op, "log") || is(op, "log2") || is(op, "log10") || is(op, "ratio2midi")) return x >= nmin;
        if (is(op, "amp2db")) return ax >= nmin;
        if (is(op, "freq2midi") || is(op, "freq2oct")) return ax >= nmin * 512;
        F lo, hi; if (exp_range(op, lo, hi)) return x >= lo && x <= hi;
        return true;
    }
};

int main(int argc, char ** argv) {
    if (argc < 5) return 2;
    std::string mode = argv[1]; uint64_t seed = strtoull(argv[2], 0, 0); unsigned long trials = strtoul(argv[3], 0, 0); cfg = argv[4];
    M.count = trials;
    for (int i = 5; i < argc; ++i) {
        std::string s = argv[i]; size_t q = s.find('='); if (q == std::string::npos) return 2;
        std::string k = s.substr(0, q); const char * v = argv[i] + q + 1;
        if (k == "inplace") M.inplace = atoi(v); else if (k == "cls") M.cls = atoi(v); else if (k == "inexact") M.inexact = atoi(v);
        else if (k == "only") M.only = v; else if (k == "pan") M.pan = atoi(v); else if (k == "red") M.red = atoi(v); else if (k == "meter") M.meter = atoi(v);
        else if (k == "samples") M.samples = atoi(v); else if (k == "big") M.big = atoi(v); else if (k == "ty") M.ty = v[0]; else if (k == "stride") M.stride = strtoul(v, 0, 0);
        else if (k == "first") M.first = strtoul(v, 0, 0); else if (k == "maxodd") M.maxodd = atoi(v); else if (k == "dump") M.dump = v; else if (k == "huge") M.huge = atoi(v); else if (k == "kinds") M.kinds = v; else if (k == "forms") M.forms = v; else return 2;
    }
    install_fault_handlers();

    Rng r(seed);
    arenas(r);
    vecalign = std::min<size_t>(32, std::max(nova::vec<float>::size * sizeof(float), (size_t)0 + nova::vec<double>::size * sizeof(double)));
    static Micro<float> * mf = new Micro<float>(r); static Micro<double> * md = new Micro<double>(r);
    std::set<unsigned long> dump; FILE * hashes = 0;
    if (mode == "cross") {
        if (M.dump && M.dump[0] == '@') { FILE * f = fopen(M.dump + 1, "r"); unsigned long id; while (f && fscanf(f, "%lu", &id) == 1) dump.insert(id); }
        else if (M.dump) hashes = fopen(M.dump, "w");
    }
    if (mode == "giant") for (unsigned long i = 0; i != trials; ++i) { if (M.ty != 'd') mf->giant(i); if (M.ty != 'f') md->giant(i); }
    else if (mode == "sweep") {
        M.count = (unsigned long)((1ull << 32) / M.stride / 128 * table<float>().size() / 2);
        if (M.ty != 'd') mf->sweep();
        if (M.ty != 'f') md->sweep();
    } else for (unsigned long i = 0; i != trials; ++i) {
        bool f = M.ty ? M.ty == 'f' : i % 2 == 0;
        if (mode == "cross") { r = Rng(seed * 1000003 + i); if (f) mf->cross(i, dump.empty() ? 0 : &dump, hashes); else md->cross(i, dump.empty() ? 0 : &dump, hashes); }
        else if (mode == "call") { if (f) mf->call(); else md->call(); }
        else if (mode == "forms") { if (f) mf->forms(); else md->forms(); }
        else if (mode == "split") { if (f) mf->split(); else md->split(); }
        else return 2;
    }
    if (hashes) fclose(hashes);
    std::set<std::string> seen; for (auto & e : table<float>()) if (!seen.insert(std::string(e.op) + "/" + e.kinds + "/" + e.form + std::to_string(e.ct)).second && !is(e.op, "copy")) { fprintf(stderr, "registered twice: %s\n", e.op); return 2; }
    fprintf(stderr, "{\"trials\":%lu,\"elements\":%lu,\"odd\":%lu,\"sampled\":%lu,\"combos\":%zu}\n", n_trials, n_elems, n_odd, n_sampled, combos.size());
    if (getenv("NV_ODDS")) for (auto & p : odds) fprintf(stderr, "odd %s %u\n", p.first.c_str(), p.second);
    return 0;
}
