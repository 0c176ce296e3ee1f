// Register machine over the vector classes: random instruction sequences, recorded as sessions of spec/VecTrace.tla.
// usage: vecops SEED SESSIONS CFG [samples=N] [only=group,group] [ty=f|d] [len=N]
// groups: io, arith, cmp, mask, bits, round, class, minmax, root, int, hor, const, math
#define NV_MAIN
#include "vec.hpp"
#include "oracle.hpp"
#include <map>
#include <set>
using namespace nv;
using nova::vec;

enum { NR = 6 };
template <class F> struct Ctx { vec<F> * R; F * mem; F v, s, ret; int q; };
template <class F> struct Op {
    const char * group, * kind, * op;
    const char * pat;           // operand pattern: v register, s scalar, = first operand is the destination
    void (*run)(vec<F> & d, const vec<F> & a, const vec<F> & b, const vec<F> & c, Ctx<F> & x);
};
#define RUN [](vec<F> & d, const vec<F> & a, const vec<F> & b, const vec<F> & c, Ctx<F> & x)
#define LANE(g, op, pat, expr) t.push_back(Op<F>{ g, "lane", op, pat, RUN { d = expr; } })
#define LANEA(g, op, stmt) t.push_back(Op<F>{ g, "lane", op, "=v", RUN { x.q = (&(stmt) == (void *)&d); } })
#define MATH(op, pat, expr) t.push_back(Op<F>{ "math", "math", op, pat, RUN { d = expr; } })
#define IO(op, pat, stmt) t.push_back(Op<F>{ "io", "io", op, pat, RUN { stmt; } })

static int collected;
template <class F> F negate(F f) { ++collected; return -f; }

// what only some vector classes have
template <class F> void more(std::vector<Op<F> > & t);
#ifdef __SSE2__
template <class F> void simd_only(std::vector<Op<F> > & t) {
    LANE("mask", "mask_lt", "vv", mask_lt(a, b)); LANE("mask", "mask_le", "vv", mask_le(a, b)); LANE("mask", "mask_gt", "vv", mask_gt(a, b));
    LANE("mask", "mask_ge", "vv", mask_ge(a, b)); LANE("mask", "mask_eq", "vv", mask_eq(a, b)); LANE("mask", "mask_neq", "vv", mask_neq(a, b));
    LANE("bits", "and", "vv", a & b); LANE("bits", "or", "vv", a | b); LANE("bits", "xor", "vv", a ^ b);
    LANE("root", "sqrt", "v", sqrt(a));
    t.push_back(Op<F>{ "const", "io", "gen_sign_mask", "", RUN { d = vec<F>::gen_sign_mask(); } });
    t.push_back(Op<F>{ "const", "io", "gen_abs_mask", "", RUN { d = vec<F>::gen_abs_mask(); } });
    t.push_back(Op<F>{ "const", "io", "gen_one", "", RUN { d = vec<F>::gen_one(); } });
    t.push_back(Op<F>{ "const", "io", "gen_05", "", RUN { d = vec<F>::gen_05(); } });
    t.push_back(Op<F>{ "const", "io", "gen_ones", "", RUN { d = vec<F>::gen_ones(); } });
    t.push_back(Op<F>{ "const", "io", "gen_zero", "", RUN { d = vec<F>::gen_zero(); } });
    t.push_back(Op<F>{ "io", "io", "is_aligned", "m", RUN { x.q = vec<F>::is_aligned(x.mem); } });
}
#endif
template <> void more(std::vector<Op<float> > & t) {
    typedef float F;
#ifdef __SSE2__
    simd_only(t);
    LANE("arith", "plus", "sv", x.v + a); LANE("arith", "minus", "sv", x.v - a); LANE("arith", "times", "sv", x.v * a); LANE("arith", "over", "sv", x.v / a);
    LANE("bits", "andnot", "vv", andnot(a, b));
    LANE("arith", "neg", "v", -a); LANE("root", "fast_reciprocal", "v", fast_reciprocal(a));
    typedef vec<float>::int_vec I;
#define INT(op, pat, expr) t.push_back(Op<F>{ "int", "int", op, pat, RUN { d = expr; } })
    INT("iadd", "vv", vec<F>(I(a) + I(b))); INT("isub", "vv", vec<F>(I(a) - I(b))); INT("ilt", "vv", vec<F>(mask_lt(I(a), I(b)))); INT("igt", "vv", vec<F>(mask_gt(I(a), I(b))));
    INT("ieq", "vv", vec<F>(mask_eq(I(a), I(b)))); INT("iand", "vv", vec<F>(I(a) & I(b))); INT("iandnot", "vv", vec<F>(andnot(I(a), I(b))));
    INT("islli", "v", vec<F>(slli(I(a), x.q))); INT("isrli", "v", vec<F>(srli(I(a), x.q)));
    INT("itof", "v", vec<F>(I(a).convert_to_float())); INT("ftoi", "v", vec<F>(a.truncate_to_int()));
    // a broadcast integer
    t.push_back(Op<F>{ "int", "io", "ctor", "s", RUN { int i; memcpy(&i, &x.v, 4); d = vec<F>(I(i)); } });
    t.push_back(Op<F>{ "const", "io", "ctor", "s", RUN { unsigned i; memcpy(&i, &x.v, 4); d = vec<F>(vec<F>::set_bitmask(i)); } });
    t.push_back(Op<F>{ "const", "io", "gen_exp_mask", "", RUN { d = vec<F>::gen_exp_mask(); } });
    t.push_back(Op<F>{ "const", "io", "gen_exp_mask_1", "", RUN { d = vec<F>::gen_exp_mask_1(); } });
#endif
}
template <> void more(std::vector<Op<double> > & t) {
    typedef double F;
#ifdef __SSE2__
    simd_only(t);
#ifndef __AVX__
    LANE("bits", "andnot", "vv", andnot(a, b));         // not in the AVX class
#endif
#endif
    t.push_back(Op<F>{ "io", "io", "ctorf", "s", RUN { d = vec<F>((float)x.v); } });
}
template <class F> std::vector<Op<F> > & ops() {
    static std::vector<Op<F> > t;
    if (!t.empty()) return t;
    IO("load", "m", d.load(x.mem)); IO("load_aligned", "M", d.load_aligned(x.mem)); IO("load_first", "m", d.load_first(x.mem));
    IO("store", "m", d.store(x.mem)); IO("store_aligned", "M", d.store_aligned(x.mem)); IO("store_aligned_stream", "M", d.store_aligned_stream(x.mem));
    IO("set_vec", "s", d.set_vec(x.v)); IO("ctor", "s", vec<F> n(x.v); d = n); IO("clear", "", d.clear());
    IO("copy", "v", vec<F> n(a); d = n); IO("assign", "v", d = a);
    IO("get", "k", x.ret = d.get(x.q)); IO("set", "ks", d.set(x.q, x.v));
    IO("set_slope", "r", x.ret = d.set_slope(x.v, x.s)); IO("set_exp", "e", x.ret = d.set_exp(x.v, x.s));
    LANE("arith", "plus", "vv", a + b); LANE("arith", "minus", "vv", a - b); LANE("arith", "times", "vv", a * b); LANE("arith", "over", "vv", a / b);
    LANE("arith", "plus", "vs", a + x.v); LANE("arith", "minus", "vs", a - x.v); LANE("arith", "times", "vs", a * x.v); LANE("arith", "over", "vs", a / x.v);
    LANEA("arith", "plus", d += b); LANEA("arith", "minus", d -= b); LANEA("arith", "times", d *= b); LANEA("arith", "over", d /= b);
    LANE("arith", "muladd", "vvv", madd(a, b, c)); LANE("arith", "square", "v", square(a)); LANE("arith", "cube", "v", cube(a));
    LANE("cmp", "less", "vv", a < b); LANE("cmp", "less_equal", "vv", a <= b); LANE("cmp", "greater", "vv", a > b); LANE("cmp", "greater_equal", "vv", a >= b);
    LANE("cmp", "equal", "vv", a == b); LANE("cmp", "notequal", "vv", a != b);
    LANE("minmax", "min", "vv", min_(a, b)); LANE("minmax", "max", "vv", max_(a, b));
    LANE("class", "abs", "v", abs(a)); LANE("class", "sgn", "v", sign(a)); LANE("class", "undenormalize", "v", undenormalize(a));
    LANE("round", "round", "v", round(a)); LANE("round", "floor", "v", floor(a)); LANE("round", "ceil", "v", ceil(a)); LANE("round", "trunc", "v", trunc(a)); LANE("round", "frac", "v", frac(a));
    LANE("root", "signed_sqrt", "v", signed_sqrt(a)); LANE("root", "reciprocal", "v", reciprocal(a));
    LANE("bits", "select", "vvS", select(a, b, c));
    t.push_back(Op<F>{ "arith", "lane", "collect", "v", RUN { collected = 0; vec<F> n(a); d = n.collect(negate<F>); x.q = collected; } });
    t.push_back(Op<F>{ "hor", "hor", "min", "h", RUN { x.ret = d.horizontal_min(); } });
    t.push_back(Op<F>{ "hor", "hor", "max", "h", RUN { x.ret = d.horizontal_max(); } });
    t.push_back(Op<F>{ "hor", "hor", "sum", "h", RUN { x.ret = d.horizontal_sum(); } });
    MATH("sin", "v", sin(a)); MATH("cos", "v", cos(a)); MATH("tan", "v", tan(a)); MATH("asin", "v", asin(a)); MATH("acos", "v", acos(a)); MATH("atan", "v", atan(a)); MATH("tanh", "v", tanh(a));
    MATH("log", "v", log(a)); MATH("log2", "v", log2(a)); MATH("log10", "v", log10(a)); MATH("exp1", "v", exp(a)); MATH("pow", "vv", pow(a, b)); MATH("spow", "vv", signed_pow(a, b));
    more<F>(t);
    return t;
}

static const char * only = 0;
static bool wanted(const char * g) {
    if (!only) return true;
    std::string l = std::string(",") + only + ",";
    return l.find(std::string(",") + g + ",") != std::string::npos;
}

template <class F> struct Machine {
    enum { L = vec<F>::size, MEM = 8 * L };
    Rng & r;
    unsigned char * regmem; vec<F> * R; Guarded g; F * mem; unsigned char shadow[NR * sizeof(vec<F>)];
    std::string ev, head; bool odd; std::string oddop; size_t instructions;
    Machine(Rng & rr) : r(rr), odd(false), instructions(0) {
        regmem = (unsigned char *)aligned_alloc(64, (NR * sizeof(vec<F>) + 63) / 64 * 64);
        R = (vec<F> *)regmem;
        for (int i = 0; i != NR; ++i) new (R + i) vec<F>();
        g.alloc(MEM * sizeof(F), r.chance(50), 0, r); mem = (F *)g.data;
        fill(r.below(NCLASS)); g.sync();
        F tmp[L];
        for (int i = 0; i != NR; ++i) { for (int k = 0; k != L; ++k) tmp[k] = value<F>(r, r.below(NCLASS)); memcpy((void *)(R + i), tmp, sizeof tmp); }
        head = "\"regs\":[";
        for (int i = 0; i != NR; ++i) head += (i ? "," : "") + lanes(i);
        head += "],\"mem\":" + words(mem, MEM);
    }
    ~Machine() { g.release(); free(regmem); }
    std::string lanes(int i) { F t[L]; memcpy(t, (void *)(R + i), sizeof t); return words(t, L); }
    F lane(int i, int k) { F t[L]; memcpy(t, (void *)(R + i), sizeof t); return t[k]; }
    void fill(int cls) { for (int i = 0; i != MEM; ++i) mem[i] = value<F>(r, cls); }
    void emit(std::string const & s) { if (!ev.empty()) ev += ",\n"; ev += s; }
    void snap() { memcpy(shadow, regmem, sizeof shadow); }
    void poke() { g.sync(); emit("{\"e\":\"poke\",\"d\":" + words(mem, MEM) + "}"); }
    size_t stray(int d, int mlo, int mhi) {                 // registers other than d, memory outside of [mlo, mhi)
        size_t c = g.stray(mlo * sizeof(F), mhi * sizeof(F));
        for (int i = 0; i != NR; ++i) if (i != d && memcmp(shadow + i * sizeof(vec<F>), regmem + i * sizeof(vec<F>), sizeof(vec<F>))) ++c;
        return c;
    }
    static std::string num(const char * k, long v) { return std::string(",\"") + k + "\":" + std::to_string(v); }
    static std::string val(const char * k, std::string const & w) { return std::string(",\"") + k + "\":" + w; }
    void suspect(const char * op) { if (!odd) { odd = true; oddop = op; } }
    bool fullmask(int i) {
        for (int k = 0; k != L; ++k) { typename Ty<F>::bits b = tobits(lane(i, k)); if (b != 0 && b != (typename Ty<F>::bits)~(typename Ty<F>::bits)0
#ifndef __SSE2__
            && lane(i, k) != F(1)
#endif
            ) return false; }
        return true;
    }
    bool run(const Op<F> & o, int d, int a, int b, int c, Ctx<F> & x, int & sig) {
        ++instructions;
        snap();
        sig = guarded([&] { o.run(R[d], R[a], R[b], R[c], x); });
        if (sig) suspect(o.op);
        return sig == 0;
    }
    void reg_from(int i, const F * p) { memcpy((void *)(R + i), p, L * sizeof(F)); }
    // brings chosen lanes into register i through memory: poke and load
    void bring(int i, const F * p) {
        unsigned m = r.below(MEM - L + 1);
        memcpy(mem + m, p, L * sizeof(F)); poke();
        snap(); R[i].load(mem + m);
        bool bad = memcmp(R + i, p, L * sizeof(F)) || stray(i, 0, 0);
        emit("{\"e\":\"io\",\"op\":\"load\",\"stray\":" + std::to_string(stray(i, 0, 0)) + ",\"sig\":0" + num("d", i) + num("m", m) + val("out", lanes(i)) + "}");
        if (bad) suspect("load");
    }
    void step(const Op<F> & o) {
        int d = r.below(NR), a = r.below(NR), b = r.below(NR), c = r.below(NR), sig;
        Ctx<F> x; x.R = R; x.mem = mem; x.v = value<F>(r, r.below(NCLASS)); x.s = 0; x.ret = 0; x.q = 0;
        const char * p = o.pat;
        std::string tail = std::string("{\"e\":\"") + o.kind + "\",\"op\":\"" + o.op + "\"";
        if (is(o.kind, "io")) {
            unsigned m = 0; int lo = 0, hi = 0; bool bad = false; F before[L], after[L]; memcpy(before, (void *)(R + d), sizeof before);
            const bool st = !strncmp(o.op, "store", 5), first = is(o.op, "load_first");
            if (*p == 'm' || *p == 'M') {
                m = *p == 'M' ? L * r.below(MEM / L) : r.below(MEM - (first ? 0 : L - 1));
                x.mem = mem + m;
                if (st) { lo = m; hi = m + L; }
            }
            if (is(o.op, "copy") || is(o.op, "assign")) m = a;
            if (*p == 'k') { m = r.below(L); x.q = m; }
            if (*p == 'r') {
                if (r.chance(50)) { x.v = F(r.range(-256, 256)) / 16; x.s = F(r.range(-64, 64)) / 32; } else { x.v = F(r.unit() * 4 - 2); x.s = F((r.unit() - 0.5) / (1 << r.below(10))); }
                if (r.chance(20)) { x.v = F(expo<F>(r, -20, 20)); x.s = F(expo<F>(r, -20, 20)); }
            }
            if (*p == 'e') {
                if (r.chance(40)) { x.v = F(r.range(-50, 50)); x.s = F(std::ldexp(1.0, r.range(-3, 3))) * (r.chance(50) ? 1 : -1); } else { x.v = F(r.unit() + 0.1); x.s = F(0.9 + 0.2 * r.unit()) * (r.chance(80) ? 1 : -1); }
            }
            if (is(o.op, "ctorf")) { float f = value<float>(r, r.below(NCLASS)); x.v = f; if (x.v != x.v) x.v = 1; }
            bool ok = run(o, d, a, b, c, x, sig);
            const bool keeps = st || is(o.op, "get") || is(o.op, "is_aligned");
            size_t s = stray(keeps ? -1 : d, lo, hi);
            memcpy(after, (void *)(R + d), sizeof after);
            tail += num("stray", s) + num("sig", sig) + num("d", d) + num("m", m) + val("v", word1(x.v)) + val("s", word1(x.s)) + val("ret", word1(x.ret)) + num("q", x.q)
                  + val("out", st ? words(mem + m, L) : lanes(d)) + "}";
            // selector
            if (s || !ok) bad = true;
            if (is(o.op, "load") || is(o.op, "load_aligned")) bad |= memcmp(after, mem + m, sizeof after) != 0;
            else if (first) { for (int k = 0; k != L; ++k) bad |= tobits(after[k]) != (k ? 0 : tobits(mem[m])); }
            else if (st) bad |= memcmp(after, mem + m, sizeof after) != 0 || memcmp(before, after, sizeof after) != 0;
            else if (is(o.op, "set_vec") || is(o.op, "ctor") || is(o.op, "ctorf")) { for (int k = 0; k != L; ++k) bad |= tobits(after[k]) != tobits(x.v); }
            else if (is(o.op, "clear")) { for (int k = 0; k != L; ++k) bad |= tobits(after[k]) != 0; }
            else if (is(o.op, "copy") || is(o.op, "assign")) { F t[L]; memcpy(t, d == a ? (void *)before : (void *)(R + a), sizeof t); bad |= memcmp(t, after, sizeof t) != 0; }
            else if (is(o.op, "get")) bad |= tobits(x.ret) != tobits(before[m]);
            else if (is(o.op, "set")) { before[m] = x.v; bad |= memcmp(before, after, sizeof after) != 0; }
            else if (*p == 'r') { for (int k = 0; k != L; ++k) bad |= !(fabsl((LD)x.v + (LD)k * x.s - after[k]) <= std::numeric_limits<F>::epsilon() * (fabsl((LD)x.v) + (LD)k * fabsl(x.s)) * (k + 1) / 2); bad |= x.ret != F(L * x.s); }
            else if (*p == 'e') { LD e = x.v; for (int k = 0; k != L; ++k) { bad |= !(fabsl(e - after[k]) <= std::numeric_limits<F>::epsilon() * k * fabsl(e)); e *= x.s; } bad |= !(fabsl(e - x.ret) <= std::numeric_limits<F>::epsilon() * L * fabsl(e)); }
            else if (is(o.op, "is_aligned")) bad |= x.q != (m % L == 0);
            else { for (int k = 1; k != L; ++k) bad |= tobits(after[k]) != tobits(after[0]); if (r.chance(3)) bad = bad; }
            if (bad) suspect(o.op);
            if (st && sig == 0) g.sync();
            emit(tail);
            return;
        }
        if (is(o.kind, "hor")) {
            F t[L]; memcpy(t, (void *)(R + d), sizeof t);
            bool nan = false; for (int k = 0; k != L; ++k) nan |= t[k] != t[k];
            if (nan || r.chance(50)) { int cls = r.below(NCLASS); for (int k = 0; k != L; ++k) do t[k] = value<F>(r, cls); while (t[k] != t[k]); if (r.chance(30)) { F f = t[0]; unsigned w = r.below(L); for (int k = 0; k != L; ++k) if (k != (int)w) t[k] = f; } bring(d, t); }
            run(o, d, a, b, c, x, sig);
            size_t s = stray(-1, 0, 0);
            F mx = t[0], mn = t[0]; LD sum = 0, mag = 0; for (int k = 0; k != L; ++k) { mx = t[k] > mx ? t[k] : mx; mn = t[k] < mn ? t[k] : mn; sum += t[k]; mag += fabsl(t[k]); }
            bool bad = s || (is(o.op, "min") ? x.ret != mn : is(o.op, "max") ? x.ret != mx : sum == sum && mag < std::numeric_limits<F>::max() ? !(fabsl(sum - x.ret) <= std::numeric_limits<F>::epsilon() * mag * L / 2) : false);
            if (bad) suspect(o.op);
            emit(tail + num("stray", s) + num("sig", sig) + num("d", d) + val("ret", word1(x.ret)) + "}");
            return;
        }
        // lane, int, math: operands
        int na = (int)strlen(p), reg[3] = { a, b, c }; bool scalar[3] = { false, false, false };
        F in[3][L]; LD ref[L]; bool known[L];
        if (is(o.kind, "math")) {
            F t[2][L];
            int wild = r.chance(60) ? -1 : (int)r.below(L);     // a lane outside of the domain
            for (int k = 0; k != L; ++k) {
                F dom[2] = { 1, 1 }; domain<F>(r, o.op, dom);
                known[k] = k != wild;
                if (!known[k]) { dom[0] = special<F>(r); dom[1] = special<F>(r); }
                for (int j = 0; j != na; ++j) t[j][k] = dom[j];
                LD l[2] = { dom[0], dom[1] }; ref[k] = known[k] ? reference(o.op, l) : (LD)INFINITY;
                if (known[k] && !(fabsl(ref[k]) <= std::numeric_limits<F>::max() && (ref[k] == 0 || fabsl(ref[k]) >= std::numeric_limits<F>::min()))) { known[k] = false; ref[k] = INFINITY; }
            }
            if (na == 2) while (b == a) b = r.below(NR);
            reg[0] = a; reg[1] = b;
            for (int j = 0; j != na; ++j) bring(reg[j], t[j]);
        }
        if (*p == '=') { reg[0] = a = d; reg[1] = b; }
        for (int j = 0; j != na; ++j) if (p[j] == 's') { scalar[j] = true; }
        if (p[0] == 's') { reg[1] = a; }
        if (strchr(p, 'S')) {
            // a complete mask: from a comparison
            if (!fullmask(c)) {
                int e = r.below(NR), f = r.below(NR);
                std::vector<Op<F> > & t = ops<F>(); std::vector<int> cand;
                for (size_t i = 0; i != t.size(); ++i) if (
#ifdef __SSE2__
                    is(t[i].group, "mask")
#else
                    is(t[i].group, "cmp")
#endif
                    ) cand.push_back((int)i);
                lanewise(t[cand[r.below(cand.size())]], c, e, f);
                if (odd) return;
            }
            reg[2] = c;
        }
        if (is(o.op, "ftoi")) { F t[L]; for (int k = 0; k != L; ++k) { do t[k] = r.chance(50) ? value<F>(r, FINITE) : expo<F>(r, -4, 31); while (!(std::fabs(t[k]) < F(2147483648.0))); } bring(a, t); }
        if (is(o.op, "islli") || is(o.op, "isrli")) x.q = r.below(32);
        for (int j = 0; j != na; ++j) for (int k = 0; k != L; ++k) in[j][k] = scalar[j] ? x.v : lane(reg[j], k);
        const int q = x.q;
        run(o, d, a, b, c, x, sig);
        size_t s = stray(d, 0, 0);
        std::string as;
        for (int j = 0; j != na; ++j) as += (j ? "," : "") + std::string("{\"r\":") + std::to_string(scalar[j] ? -1 : reg[j]) + (scalar[j] ? ",\"v\":" + word1(x.v) : "") + "}";
        F out[L]; memcpy(out, (void *)(R + d), sizeof out);
        bool bad = s || sig;
        for (int k = 0; k != L; ++k) {
            if (is(o.kind, "math")) { if (known[k]) bad |= suspicious_ref<F>(o.op, out[k], ref[k], true); continue; }
            LD la[3]; for (int j = 0; j != na; ++j) la[j] = in[j][k];
            bad |= is(o.kind, "int") ? int_odd(o.op, in[0][k], na > 1 ? in[1][k] : F(0), q, out[k]) : lane_odd(o.op, in, k, la, na, out[k]);
        }
        if (is(o.op, "collect")) bad |= x.q != L;
        if (*p == '=' && x.q != 1) bad = true;
        if (bad) suspect(o.op);
        tail += num("stray", s + (*p == '=' && x.q != 1 ? 1 : 0)) + num("sig", sig) + num("d", d) + num("q", is(o.kind, "int") ? q : x.q) + ",\"a\":[" + as + "]" + val("out", words(out, L));
        if (is(o.kind, "math")) {
            std::vector<double> hl; for (int k = 0; k != L; ++k) { double h = (double)ref[k]; hl.push_back(h); hl.push_back(h - h == 0 ? (double)(ref[k] - h) : 0); }
            tail += val("ref", words(hl));
        }
        emit(tail + "}");
    }
    void lanewise(const Op<F> & o, int d, int a, int b) {   // a comparison into d
        Ctx<F> x; x.R = R; x.mem = mem; x.v = x.s = x.ret = 0; x.q = 0; int sig;
        F in[2][L]; for (int k = 0; k != L; ++k) { in[0][k] = lane(a, k); in[1][k] = lane(b, k); }
        run(o, d, a, b, a, x, sig);
        F out[L]; memcpy(out, (void *)(R + d), sizeof out); size_t s = stray(d, 0, 0); bool bad = s || sig;
        for (int k = 0; k != L; ++k) { LD la[2] = { in[0][k], in[1][k] }; bad |= lane_odd(o.op, in, k, la, 2, out[k]); }
        if (bad) suspect(o.op);
        emit(std::string("{\"e\":\"lane\",\"op\":\"") + o.op + "\"" + num("stray", s) + num("sig", sig) + num("d", d) + num("q", 0) + ",\"a\":[{\"r\":" + std::to_string(a) + "},{\"r\":" + std::to_string(b) + "}]" + val("out", words(out, L)) + "}");
    }
    static bool int_odd(const char * op, F fa, F fb, int q, F fr) {
        uint32_t a = 0, b = 0, w = 0; memcpy(&a, &fa, 4); memcpy(&b, &fb, 4); memcpy(&w, &fr, 4);
        if (is(op, "iadd")) return w != a + b;  if (is(op, "isub")) return w != a - b;  if (is(op, "ilt")) return w != ((int32_t)a < (int32_t)b ? ~0u : 0u);
        if (is(op, "igt")) return w != ((int32_t)a > (int32_t)b ? ~0u : 0u);    if (is(op, "ieq")) return w != (a == b ? ~0u : 0u);
        if (is(op, "iand")) return w != (a & b);        if (is(op, "iandnot")) return w != (~a & b);    if (is(op, "islli")) return w != a << q;        if (is(op, "isrli")) return w != a >> q;
        if (is(op, "itof")) return fr != (F)(float)(int32_t)a; if (is(op, "ftoi")) return (int32_t)w != (int32_t)fa;
        return true;
    }
    template <class A> static bool lane_odd(const char * op, A & in, int k, const LD * la, int na, F out) {
        typedef typename Ty<F>::bits B; B w = tobits(out), a = tobits(in[0][k]), b = na > 1 ? tobits(in[1][k]) : 0; const B all = (B)~(B)0;
        F x = in[0][k], y = na > 1 ? in[1][k] : F(0);
        if (is(op, "mask_lt")) return w != (x < y ? all : 0);   if (is(op, "mask_le")) return w != (x <= y ? all : 0);  if (is(op, "mask_gt")) return w != (x > y ? all : 0);
        if (is(op, "mask_ge")) return w != (x >= y ? all : 0);  if (is(op, "mask_eq")) return w != (x == y ? all : 0);  if (is(op, "mask_neq")) return w != (x != y ? all : 0);
        if (is(op, "and")) return w != (a & b); if (is(op, "or")) return w != (a | b);  if (is(op, "xor")) return w != (a ^ b); if (is(op, "andnot")) return w != (~a & b);
        if (is(op, "select")) return w != (tobits(in[na - 1][k]) == 0 ? a : b);
        if (is(op, "neg") || is(op, "collect")) return !same<F>(out, -x) || (x == x && is(op, "neg") && std::signbit(out) == std::signbit(x));
        if (is(op, "sqrt")) return !same<F>(out, std::sqrt(x));
        if (is(op, "fast_reciprocal")) return std::fabs(x) > F(1e-30) && std::fabs(x) < F(1e30) && !(fabsl((LD)x * out - 1) < 4e-4L);
        return suspicious<F>(op, la, na, out);
    }
};

template <class F> void go(Rng & r, unsigned sessions, const char * cfg, unsigned samples, unsigned len) {
    std::vector<const Op<F> *> t;
    for (size_t i = 0; i != ops<F>().size(); ++i) if (wanted(ops<F>()[i].group)) t.push_back(&ops<F>()[i]);
    std::map<std::string, int> shown; size_t instr = 0, ss = 0, oddn = 0;
    if (t.empty()) return;
    for (unsigned s = 0; s != sessions; ++s) {
        Machine<F> m(r);
        for (unsigned i = 0; i != len && !m.odd; ++i) {
            if (r.chance(12)) { m.fill(r.below(NCLASS)); m.poke(); }
            if (r.chance(25)) for (size_t k = 0; k != ops<F>().size(); ++k) if (is(ops<F>()[k].op, r.chance(50) ? "load" : "load_aligned")) { m.step(ops<F>()[k]); break; }
            if (!m.odd) m.step(*t[r.below(t.size())]);
        }
        instr += m.instructions; ++ss; oddn += m.odd; if (m.odd && getenv("NV_ODD")) fprintf(stderr, "odd %s %s\n", Ty<F>::name(), m.oddop.c_str());
        if ((m.odd && shown[m.oddop]++ < 2) || s % (sessions / samples ? sessions / samples : 1) == 0) {
            std::string o = std::string("{\"ty\":\"") + Ty<F>::name() + "\",\"cfg\":\"" + cfg + "\"," + m.head + ",\"ev\":[" + m.ev + "]}";
            for (char & ch : o) if (ch == '\n') ch = ' ';
            puts(o.c_str());
        }
    }
    fprintf(stderr, "{\"instructions\":%zu,\"sessions\":%zu,\"odd_sessions\":%zu}\n", instr, ss, oddn);
}

int main(int argc, char ** argv) {
    if (argc < 4) return 2;
    unsigned samples = 40, len = 30; const char * ty = "fd";
    for (int i = 4; i != argc; ++i) {
        if (!strncmp(argv[i], "samples=", 8)) samples = atoi(argv[i] + 8);
        else if (!strncmp(argv[i], "only=", 5)) only = argv[i] + 5;
        else if (!strncmp(argv[i], "len=", 4)) len = atoi(argv[i] + 4);
        else if (!strncmp(argv[i], "ty=", 3)) ty = argv[i] + 3;
        else return 2;
    }
    install_fault_handlers();
    Rng r(strtoull(argv[1], 0, 10));
    unsigned n = atoi(argv[2]);
    if (strchr(ty, 'f')) go<float>(r, n, argv[3], samples, len);
    if (strchr(ty, 'd')) go<double>(r, n, argv[3], samples, len);
}
