// Selector: decides cheaply which results are worth showing to the specification.
// It never decides a property: everything it finds odd is recorded and judged by TLC, as is a random
// sample of the rest.  It is stricter than the specification wherever that is possible.
#ifndef ORACLE_HPP
#define ORACLE_HPP
#include "nv.hpp"
namespace nv {

typedef long double LD;

inline bool is(const char * a, const char * b) { return !strcmp(a, b); }
inline bool approximated(const char * op) {
    static const char * t[] = { "sin", "cos", "tan", "asin", "acos", "atan", "tanh", "log", "log2", "log10", "exp1", "pow", "spow",
        "midi2freq", "freq2midi", "midi2ratio", "ratio2midi", "oct2freq", "freq2oct", "amp2db", "db2amp" };
    for (const char * s : t) if (is(s, op)) return true;
    return false;
}
// the C library's value in extended precision
inline LD reference(const char * op, const LD * a) {
    LD x = a[0];
    if (is(op, "sin")) return sinl(x);      if (is(op, "cos")) return cosl(x);      if (is(op, "tan")) return tanl(x);
    if (is(op, "asin")) return asinl(x);    if (is(op, "acos")) return acosl(x);    if (is(op, "atan")) return atanl(x);
    if (is(op, "tanh")) return tanhl(x);    if (is(op, "log")) return logl(x);      if (is(op, "log2")) return log2l(x);
    if (is(op, "log10")) return log10l(x);  if (is(op, "exp1")) return expl(x);     if (is(op, "pow")) return powl(x, a[1]);
    if (is(op, "spow")) return copysignl(powl(fabsl(x), a[1]), x);
    if (is(op, "midi2freq")) return 440 * exp2l((x - 69) / 12);     if (is(op, "freq2midi")) return 12 * log2l(fabsl(x) / 440) + 69;
    if (is(op, "midi2ratio")) return exp2l(x / 12);                 if (is(op, "ratio2midi")) return 12 * log2l(x);
    if (is(op, "oct2freq")) return 440 * exp2l(x - 4.75L);          if (is(op, "freq2oct")) return log2l(fabsl(x) / 440) + 4.75L;
    if (is(op, "amp2db")) return 20 * log10l(fabsl(x));             if (is(op, "db2amp")) return powl(10, x / 20);
    return 0;
}
// the arguments of the exponential functions where the power behind the result and the result are normal numbers
template <class F> bool exp_range(const char * op, F & lo, F & hi) {
    const bool f = sizeof(F) == 4;
    if (is(op, "exp1")) { lo = f ? -87.3365 : -708; hi = f ? 88.7228 : 709.7; return true; }
    if (is(op, "midi2freq")) { lo = f ? -1441 : -12180; hi = f ? 1498 : 12240; return true; }
    if (is(op, "midi2ratio")) { lo = f ? -1510 : -12250; hi = f ? 1534 : 12280; return true; }
    if (is(op, "oct2freq")) { lo = f ? -121 : -1017; hi = f ? 123.9 : 1019.9; return true; }
    if (is(op, "db2amp")) { lo = f ? -758 : -6150; hi = f ? 770 : 6160; return true; }
    return false;
}
// a random argument list in the domain of an approximated function (the properties exclude the rest)
template <class F> void domain(Rng & r, const char * op, F * a) {
    const bool f = sizeof(F) == 4;
    F x = 0;
    const F nmin = std::numeric_limits<F>::min(); F nlo = 0, nhi = 0;
    if (is(op, "sin") || is(op, "cos") || is(op, "tan")) {
        switch (r.below(6)) {
        case 0: x = F(r.unit() * 16384 - 8192); break;
        case 1: x = F((r.unit() * 2 - 1) * 200); break;
        case 2: x = F(r.range(-4000, 4000) * 1.5707963267948966 * (1 + (r.unit() - 0.5) * 1e-6)); break;    // near zeros and poles
        case 3: x = expo<F>(r, -126, 12); break;
        case 4: x = F(r.range(-9000, 9000) * 0.78539816339744831); break;
        default: x = F((r.unit() * 2 - 1) * 3.2); break;
        }
        if (std::fabs(x) > 8192) x = 1;
    } else if (is(op, "asin") || is(op, "acos")) {
        switch (r.below(4)) {
        case 0: x = expo<F>(r, -126, -1); break;
        case 1: x = (r.chance(50) ? F(1) : F(-1)) * (1 - std::ldexp(F(r.unit()), -(int)r.below(22))); break;
        case 2: x = (r.chance(50) ? F(0.5) : F(-0.5)) * (1 + F((r.unit() - 0.5) * 1e-3)); break;
        default: x = F(r.unit() * 2 - 1); break;
        }
        if (std::fabs(x) > 1) x = 1;
    } else if (is(op, "atan") || is(op, "tanh")) {
        switch (r.below(4)) {
        case 0: x = f ? expo<F>(r, -125, 126) : expo<F>(r, -1000, 1000); break;
        case 1: x = F((r.unit() * 2 - 1) * 30); break;
        case 2: { static const double c[] = { 0.41421356, 2.41421356, 0.625, 22, 1, 9.01, 0.5 }; x = F(c[r.below(7)] * (1 + (r.unit() - 0.5) * 1e-3) * (r.chance(50) ? 1 : -1)); break; }
        default: x = expo<F>(r, -12, 6); break;
        }
    } else if (is(op, "log") || is(op, "log2") || is(op, "log10") || is(op, "ratio2midi") || is(op, "amp2db") || is(op, "freq2midi") || is(op, "freq2oct")) {
        switch (r.below(5)) {
        case 0: x = f ? expo<F>(r, -126, 127) : expo<F>(r, -1022, 1023); break;
        case 1: x = F(1) + std::ldexp(F(r.unit() - 0.5), -(int)r.below(22)); break;
        case 2: x = F(r.unit() * 20000); break;
        case 3: x = std::ldexp(F(0.7071067811865476 * (1 + (r.unit() - 0.5) * 1e-4)), r.range(-60, 60)); break;
        default: x = std::ldexp(F(1), r.range(f ? -126 : -1022, f ? 127 : 1023)); break;
        }
        bool abs_ok = is(op, "amp2db") || is(op, "freq2midi") || is(op, "freq2oct");
        x = abs_ok && r.chance(30) ? x : std::fabs(x);
        F lo = is(op, "freq2midi") || is(op, "freq2oct") ? nmin * 512 : nmin;      // the argument is scaled by 1/440
        if (!(std::fabs(x) >= lo)) x = F(440);
    } else if (exp_range(op, nlo, nhi)) {
        const bool e = is(op, "exp1"), o = is(op, "oct2freq"), db = is(op, "db2amp");
        switch (r.below(8)) {
        case 0: case 1: x = nlo + (nhi - nlo) * F(r.unit()); break;
        case 2: x = F(r.unit() * 2 - 1); break;
        case 3: { const F k = e ? F(0.34657359027997264) : o ? F(0.5) : db ? F(3.010299956639812) : F(6); x = F(r.range(-250, 250)) * k * (1 + F((r.unit() - 0.5) * 1e-4)) + (is(op, "midi2freq") ? 69 : o ? F(4.75) : 0); break; }    // between two exponents
        case 4: x = (r.chance(50) ? nlo : nhi) * F(1 - r.unit() * r.unit() * 0.02); break;
        case 5: x = F(r.range(-24, 140)); break;
        case 6: x = expo<F>(r, f ? -100 : -900, 2); break;
        default: x = e ? F(r.unit() * 40 - 20) : o ? F(r.unit() * 12) : db ? F(r.unit() * 120 - 100) : F(r.unit() * 128); break;
        }
        if (!(x >= nlo && x <= nhi)) x = 1;
    } else if (is(op, "pow") || is(op, "spow")) {
        F y;
        do {
            switch (r.below(4)) {
            case 0: x = std::fabs(expo<F>(r, f ? -100 : -900, f ? 100 : 900)); y = F(r.unit() * 2 - 1); break;
            case 1: x = F(0.5 + r.unit()); y = F((r.unit() * 2 - 1) * 60); break;
            case 2: x = F(r.unit() * 10 + 1e-3); y = F(r.range(-8, 8)) / 2; break;
            default: x = std::fabs(expo<F>(r, -6, 6)); y = expo<F>(r, -6, 4); break;
            }
        } while (!(std::fabs(y * std::log2(x)) < (f ? 125.5 : 1020)));
        if (is(op, "spow") && r.chance(50)) x = -x;
        a[1] = y;
    }
    a[0] = x;
}

// relative difference allowed before a result of an approximated function is looked at by the specification
template <class F> bool suspicious_ref(const char * op, LD r, LD ref, bool) {
    const bool f = sizeof(F) == 4, unit = is(op, "midi2freq") || is(op, "freq2midi") || is(op, "midi2ratio") || is(op, "ratio2midi") || is(op, "oct2freq") || is(op, "freq2oct") || is(op, "amp2db") || is(op, "db2amp");
    if (!(r == r)) return true;
    LD e = f ? 4e-7L : unit ? 8e-12L : 8e-15L, d = fabsl(r - ref), m = fabsl(ref);
    if (is(op, "sin") || is(op, "cos")) return d > e * m + (f ? 5e-10L : 0);
    if (is(op, "tan")) return d > e * m + (f ? 5e-10L * (1 + m * m) : 0);
    if (is(op, "freq2midi")) return d > e * (fabsl(ref - 69) + 69);
    if (is(op, "freq2oct")) return d > e * (fabsl(ref - 4.75L) + 4.75L);
    if (is(op, "pow") || is(op, "spow") || is(op, "midi2ratio") || is(op, "db2amp")) return d > e * m * (1 + fabsl(logl(m)));
    if (is(op, "midi2freq") || is(op, "oct2freq")) return d > e * m * (1 + fabsl(logl(m / 440)));
    return d > e * m;
}

template <class F> bool same(F a, F b) { return a == b || (a != a && b != b); }

// true: show the element to the specification
template <class F> bool suspicious(const char * op, const LD * a, int na, F r) {
    typedef std::numeric_limits<F> L;
    const LD eps = L::epsilon();
    const F x = F(a[0]), y = na > 1 ? F(a[1]) : F(0), z = na > 2 ? F(a[2]) : F(0);
    // ramp values are exact numbers: they may not fit F, then leave it to the specification
    for (int i = 0; i != na; ++i) if (a[i] == a[i] && (LD)(F)a[i] != a[i]) return true;
    auto huge = [&](LD v) { return v - v == 0 && fabsl(v) >= (LD)L::max() / 4; };       // may overflow on the way
    auto near_ = [&](LD e, LD mag, LD k) -> bool {                            // within k half units of mag
        if (e != e) return r != r;
        if (e - e != 0) return (LD)r == e;                                    // infinite
        if (mag >= (LD)L::max() / 4 || mag != mag) return true;              // may overflow: the specification decides (it accepts)
        return fabsl((LD)r - e) <= k * eps / 2 * mag + k * L::denorm_min();
    };
    if (is(op, "plus") || (is(op, "sum") && na == 2)) return !same<F>(r, x + y);
    if (is(op, "minus")) return !same<F>(r, x - y);
    if (is(op, "times")) return !same<F>(r, x * y);
    if (is(op, "over")) return !same<F>(r, x / y);
    if (is(op, "square")) return !same<F>(r, x * x);
    if (is(op, "less")) return r != F(x < y);
    if (is(op, "less_equal")) return r != F(x <= y);
    if (is(op, "greater")) return r != F(x > y);
    if (is(op, "greater_equal")) return r != F(x >= y);
    if (is(op, "equal")) return r != F(x == y);
    if (is(op, "notequal")) return r != F(x != y);
    if (is(op, "min")) return !(same<F>(r, x < y ? x : y) || ((x != x || y != y) && (same(r, x) || same(r, y))));
    if (is(op, "max")) return !(same<F>(r, x > y ? x : y) || ((x != x || y != y) && (same(r, x) || same(r, y))));
    if (is(op, "clip") || is(op, "clip2")) {
        F lo = is(op, "clip") ? y : -y, hi = is(op, "clip") ? z : y;
        if (x != x || !(lo <= hi)) return !(same(r, x) || same(r, lo) || same(r, hi));
        return !same<F>(r, x < lo ? lo : x > hi ? hi : x);
    }
    if (is(op, "abs")) return !same<F>(r, std::fabs(x));
    if (is(op, "sgn")) return x == x && r != F(x > 0 ? 1 : x < 0 ? -1 : 0);
    if (is(op, "undenormalize")) return !same<F>(r, std::fabs(x) < L::min() ? F(0) : x);
    if (is(op, "floor")) return !same<F>(r, std::floor(x));
    if (is(op, "ceil")) return !same<F>(r, std::ceil(x));
    if (is(op, "trunc")) return !same<F>(r, std::trunc(x));
    if (is(op, "round")) return std::fabs(x) <= L::max() ? !(std::floor(r) == r && fabsl((LD)r - (LD)x) <= 0.5L) : !same(r, x);
    if (is(op, "frac")) return std::fabs(x) <= L::max() ? !(r == F((LD)x - floorl((LD)x))) : r == r;
    if (is(op, "signed_sqrt")) return !same<F>(r, std::copysign(std::sqrt(std::fabs(x)), x));
    if (is(op, "reciprocal")) {
        F ax = std::fabs(x);
        if (!(ax > L::min() * 4 && ax < L::max() / 8)) return x != x && r == r;
        return fabsl((LD)r * x - 1) > 4 * eps;
    }
    if (is(op, "softclip")) {
        F ax = std::fabs(x);
        if (x != x) return r == r;
        if (ax > L::max()) return false;
        if (ax < F(0.5)) return r != x;
        return !(std::fabs(r) <= 1 && fabsl((LD)r - copysignl(1 - 0.25L / ax, x)) <= 2 * eps);
    }
    if (is(op, "cube")) return !huge(a[0] * a[0]) && !near_(a[0] * a[0] * a[0], fabsl(a[0] * a[0] * a[0]), 3.5L);
    if (is(op, "muladd")) return !huge(a[0] * a[1]) && !near_(a[0] * a[1] + a[2], fabsl(a[0] * a[1]) + fabsl(a[2]), 2.5L);
    if (is(op, "ampmod") && a[0] - a[0] != 0 && fabsl(1 + a[1] * a[2]) <= 4 * eps * (1 + fabsl(a[1] * a[2]))) return false;
    if (is(op, "ampmod")) return !huge(a[1] * a[2]) && !huge(a[0] * a[1] * a[2]) && !near_(a[0] * (1 + a[1] * a[2]), fabsl(a[0]) * (1 + fabsl(a[1] * a[2])) + fabsl(a[0]) + fabsl(a[1] * a[2]), 4.5L);
    if (is(op, "mix")) return !huge(a[0] * a[1]) && !huge(a[2] * a[3]) && !near_(a[0] * a[1] + a[2] * a[3], fabsl(a[0] * a[1]) + fabsl(a[2] * a[3]), 3.5L);
    if (is(op, "sum")) { LD s = 0, m = 0, fm = 0; for (int i = 0; i != na; ++i) { s += a[i]; m += fabsl(a[i]); if (a[i] - a[i] == 0) fm += fabsl(a[i]); } return !huge(fm) && !near_(s, m, na - 0.5L); }
    return true;
}

} // namespace nv
#endif
