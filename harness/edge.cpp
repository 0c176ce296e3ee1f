// Elementary functions at the edges of their domains: calls on short buffers, with the call on the negated
// argument and the results of the elements on their own.  Recorded as events of spec/Edge.tla.
// usage: edge SEED CALLS CFG [samples=N]
#define NV_MAIN
#include "reg.hpp"
#include "oracle.hpp"
#include <map>
using namespace nv;

static unsigned samples = 60, n_calls, n_elems, n_odd, n_shown;
static std::map<std::string, unsigned> shown;

template <class F> F nudge(Rng & r, F x) {          // some units in the last place
    if (!(x - x == 0) || r.chance(25)) return x;
    if (r.chance(40)) return x * F(1 + (r.unit() - 0.5) * std::ldexp(1.0, -(int)r.below(12)));
    int k = r.range(-6, 6); F to = k < 0 ? -std::numeric_limits<F>::infinity() : std::numeric_limits<F>::infinity();
    for (int i = 0; i != (k < 0 ? -k : k); ++i) x = std::nextafter(x, to);
    return x;
}
template <class F> F edge_value(Rng & r, const char * op) {
    static const double e_exp[] = { 88.72283905206835, 88.722839355, 88, 89, 88.3762626647949, -87.33654475, -88, -87.68, -88.03, -103.97, -104, 0, 1, 709.782712893384, 710, -745.13, -746, -708.4 };
    static const double e_tanh[] = { 22, 0.625, 9.010913, 44, 88, 0, 1e-20, 128, 20, 11 };
    static const double e_arc[] = { 1, 0.5, 0, 2, 0.9999999, 1e-20, 0.70710678 };
    static const double e_atan[] = { 0.41421356237309503, 2.414213562373095, 1, 0, 1e20, 1e-20 };
    static const double e_circ[] = { 0.78539816339744831, 1.5707963267948966, 2.3561944901923448, 3.1415926535897931, 4.71238898038469, 6.2831853071795862, 8192, 0, 1e-20 };
    if (r.chance(15)) return special<F>(r);
    if (r.chance(10)) return bits<F>(r);
    double v;
#define PICK(T) v = T[r.below(sizeof T / sizeof T[0])]
    if (is(op, "exp1")) { PICK(e_exp); return r.chance(8) ? F(r.unit() * 400 - 200) : nudge(r, F(v)); }
    if (is(op, "tanh")) PICK(e_tanh); else if (is(op, "asin") || is(op, "acos")) PICK(e_arc); else if (is(op, "atan")) PICK(e_atan); else PICK(e_circ);
    v *= (is(op, "sin") || is(op, "cos") || is(op, "tan")) && r.chance(50) ? 1 + r.below(2000) : 1;
    if (r.chance(15)) v = r.unit() * 4 - 2;
    F x = nudge(r, F(v));
    return r.chance(50) ? x : -x;
}

// selector: stricter than, or equal to, the specification
template <class F> bool element_odd(const char * op, bool apx, F x, F y, bool two, F r, F m, F alone) {
    typedef std::numeric_limits<F> L;
    if (!same(r, alone)) return true;
    const bool symm = x == x && !(two && x == 0 && !(y > 0));
    if (symm && !is(op, "exp1") && !is(op, "acos") && !is(op, "pow") && strncmp(op, "log", 3)) {
        if ((r != r) != (m != m)) return true;
        else if (r == r) {
            if (is(op, "cos")) { if (r != m) return true; }
            else if (is(op, "sin") || is(op, "tan") || is(op, "asin") || is(op, "atan") || is(op, "tanh") || is(op, "signed_sqrt") || is(op, "spow")) { if (r != -m) return true; }
        }
    }
    if (is(op, "exp1")) {
        if (x != x) return r == r;
        if (apx) return x > F(88.72283172607422f) ? r != L::max() : x < -88 ? r != 0 : x < -87 ? !(r >= 0 && r < F(2.3e-38)) : !(r > 0 && r <= L::max());
        const bool f = sizeof(F) == 4;
        return x > (f ? 89 : 710) ? r != L::infinity() : x < (f ? -104 : -746) ? r != 0 : !(r >= 0);
    }
    if (x != x) return false;
    if (is(op, "tanh")) return !(std::fabs(r) <= 1) || (std::fabs(x) > 22 && r != (x < 0 ? -1 : 1)) || (x * r < 0);
    if (is(op, "asin") || is(op, "acos")) {
        if (std::fabs(x) > 1) return apx ? r != 0 : r == r;
        return is(op, "asin") ? !(std::fabs(r) <= F(1.5707964f)) || x * r < 0 : !(r >= 0 && r <= F(3.14159274101257f));
    }
    if (is(op, "atan")) return !(std::fabs(r) <= F(1.57079637f)) || (std::fabs(x) > L::max() && !(std::fabs(r) > F(1.5707961)));
    if (is(op, "pow") || is(op, "spow")) {
        if (!(x - x == 0 && y - y == 0)) return false;
        if (x == 0) return y > 0 && r != 0;
        if ((is(op, "pow") && x < 0) || std::fabs(x) < L::min()) return false;
        return r != r || (r != 0 && (x < 0) != (r < 0)) || (apx && !(std::fabs(r) <= L::max()));
    }
    return false;
}

template <class F> void go(Rng & r, unsigned calls, const char * cfg) {
    std::vector<const Entry<F> *> t;
    for (size_t i = 0; i != table<F>().size(); ++i) { const Entry<F> & e = table<F>()[i]; if (!strpbrk(e.kinds, "sr") && !is(e.op, "reciprocal")) t.push_back(&e); }
    Guarded g[3]; enum { MAXN = 160 };
    for (int i = 0; i != 3; ++i) g[i].alloc(MAXN * sizeof(F), true, 0, r);
    const unsigned spl = nova::unroll_constraints<F>::samples_per_loop;
#ifdef __SSE2__
    const bool vectors = true;
#else
    const bool vectors = false;
#endif
    for (unsigned c = 0; c != calls; ++c) {
        const Entry<F> * e = t[r.below(t.size())];
        const bool two = e->nargs == 2; const char * op = e->op;
        unsigned n = e->ct ? e->ct : e->form == 'v' ? 1 + r.below(40) : spl * (1 + r.below(3));
        if (n > MAXN) continue;
        F x[MAXN], y[MAXN], out[MAXN], neg[MAXN], alone[MAXN]; int sig = 0; size_t stray = 0;
        for (unsigned i = 0; i != n; ++i) {
            if (two) {
                x[i] = r.chance(20) ? F(0) : r.chance(10) ? special<F>(r) : std::fabs(expo<F>(r, -30, 30));
                if (is(op, "spow") && r.chance(50)) x[i] = -x[i];
                switch (r.below(5)) {
                case 0: y[i] = F(r.unit() * 10); break;
                case 1: y[i] = special<F>(r); break;
                case 2: y[i] = nudge(r, F((sizeof(F) == 4 ? 88.722839 : 709.78) / std::log(std::fabs((double)x[i])))); break;
                case 3: y[i] = expo<F>(r, -3, 6); break;
                default: y[i] = F(r.range(-8, 8)) / 2; break;
                }
            } else x[i] = edge_value<F>(r, op);
        }
        if (r.chance(30)) { F v = x[0], w = two ? y[0] : F(0); unsigned k = r.below(n); for (unsigned i = 0; i != n; ++i) if (i != k) { x[i] = F(0.25); if (two) y[i] = F(1); } x[k] = v; if (two) y[k] = w; }
        F * o = (F *)g[0].data + (MAXN - n), * a = (F *)g[1].data + (MAXN - n), * b = (F *)g[2].data + (MAXN - n);
        if (n % spl) { o = (F *)g[0].data; a = (F *)g[1].data; b = (F *)g[2].data; }
        auto call = [&](const F * px, const F * py, F * res, unsigned k) {
            memcpy(a, px, n * sizeof(F)); if (two) memcpy(b, py, n * sizeof(F));
            for (int i = 0; i != 3; ++i) g[i].sync();
            Arg<F> args[4]; memset(args, 0, sizeof args); args[0].p = a; args[1].p = b;
            int s = guarded([&] { e->fn(o, args, n); });
            if (s) sig = s;
            stray += g[0].stray((char *)o - (char *)g[0].data, (char *)(o + n) - (char *)g[0].data) + g[1].stray(0, 0) + g[2].stray(0, 0);
            if (k == ~0u) memcpy(res, o, n * sizeof(F)); else res[k] = o[k];
        };
        call(x, y, out, ~0u);
        F mx[MAXN]; for (unsigned i = 0; i != n; ++i) mx[i] = -x[i];
        call(mx, y, neg, ~0u);
        for (unsigned i = 0; i != n; ++i) { F fx[MAXN], fy[MAXN]; for (unsigned k = 0; k != n; ++k) { fx[k] = x[i]; fy[k] = y[i]; } call(fx, fy, alone, i); }
        ++n_calls; n_elems += n;
        const bool apx = vectors && sizeof(F) == 4 && e->form != 'v'; bool odd = sig || stray;
        for (unsigned i = 0; i != n && !odd; ++i) odd = element_odd<F>(op, apx, x[i], y[i], two, out[i], neg[i], alone[i]);
        n_odd += odd;
        std::string key = std::string(op) + e->form + Ty<F>::name();
        if ((odd && shown[key]++ < 3) || (c % (calls / samples ? calls / samples : 1) == 0 && n <= 32)) {
            ++n_shown;
            printf("{\"cfg\":\"%s\",\"ev\":[{\"op\":\"%s\",\"ty\":\"%s\",\"form\":\"%c\",\"simd\":%d,\"n\":%u,\"sig\":%d,\"stray\":%zu,\"x\":%s,\"y\":%s,\"out\":%s,\"neg\":%s,\"alone\":%s}]}\n", cfg, op, Ty<F>::name(), e->form,
                vectors && e->form != 'v', n, sig, stray, words(x, n).c_str(), two ? words(y, n).c_str() : "[]", words(out, n).c_str(), words(neg, n).c_str(), words(alone, n).c_str());
        }
    }
    for (int i = 0; i != 3; ++i) g[i].release();
}
int main(int argc, char ** argv) {
    if (argc < 4) return 2;
    for (int i = 4; i != argc; ++i) if (!strncmp(argv[i], "samples=", 8)) samples = atoi(argv[i] + 8); else return 2;
    install_fault_handlers();
    Rng r(strtoull(argv[1], 0, 10));
    go<float>(r, atoi(argv[2]), argv[3]); go<double>(r, atoi(argv[2]) / 2, argv[3]);
    fprintf(stderr, "{\"calls\":%u,\"elements\":%u,\"odd\":%u}\n", n_calls, n_elems, n_odd);
}
