// Registry of nova-simd's buffer operations, reachable by name, argument kinds and form.
#ifndef REG_HPP
#define REG_HPP
#include "nv.hpp"
#include "simd_binary_arithmetic.hpp"
#include "simd_ternary_arithmetic.hpp"
#include "simd_unary_arithmetic.hpp"
#include "simd_mix.hpp"
#include "simd_math.hpp"
#include "simd_memory.hpp"
#include "simd_unroll_constraints.hpp"
#include "softclip.hpp"
#include "simd_unit_conversion.hpp"

namespace nv {

template <class F> struct Arg { const F * p; F v, s; };

// kinds: p(ointer), s(calar), r(amp)
template <class F, char K> struct Get;
template <class F> struct Get<F, 'p'> { static const F * get(Arg<F> const & a) { return a.p; } };
template <class F> struct Get<F, 's'> { static F get(Arg<F> const & a) { return a.v; } };
template <class F> struct Get<F, 'r'> { static auto get(Arg<F> const & a) -> decltype(nova::slope_argument(a.v, a.s)) { return nova::slope_argument(a.v, a.s); } };

template <class F> struct Entry {
    const char * op; int nargs; char kinds[5]; char form; unsigned ct;      // form: v, s, c
    void (*fn)(F * out, const Arg<F> * a, unsigned n);
};
template <class F> std::vector<Entry<F> > & table() { static std::vector<Entry<F> > t; return t; }

template <class F> void put(const char * op, int nargs, const char * kinds, char form, unsigned ct, void (*fn)(F *, const Arg<F> *, unsigned)) {
    Entry<F> e; e.op = op; e.nargs = nargs; memset(e.kinds, 0, sizeof e.kinds); strncpy(e.kinds, kinds, 4); e.form = form; e.ct = ct; e.fn = fn;
    table<F>().push_back(e);
}

#define NV_OP(NAME) struct op_##NAME { \
    static const char * name() { return #NAME; } \
    template <class F, class... A> static void v(F * o, unsigned n, A... a) { nova::NAME##_vec(o, a..., n); } \
    template <class F, class... A> static void s(F * o, unsigned n, A... a) { nova::NAME##_vec_simd(o, a..., n); } \
    template <unsigned N, class F, class... A> static void c(F * o, A... a) { nova::NAME##_vec_simd<N>(o, a...); } \
};

template <class Op, class F, char... K> struct Reg;
template <class Op, class F, char K1> struct Reg<Op, F, K1> {
    static void v(F * o, const Arg<F> * a, unsigned n) { Op::template v<F>(o, n, Get<F, K1>::get(a[0])); }
    static void s(F * o, const Arg<F> * a, unsigned n) { Op::template s<F>(o, n, Get<F, K1>::get(a[0])); }
    template <unsigned N> static void c(F * o, const Arg<F> * a, unsigned) { Op::template c<N, F>(o, Get<F, K1>::get(a[0])); }
};
template <class Op, class F, char K1, char K2> struct Reg<Op, F, K1, K2> {
    static void v(F * o, const Arg<F> * a, unsigned n) { Op::template v<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1])); }
    static void s(F * o, const Arg<F> * a, unsigned n) { Op::template s<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1])); }
    template <unsigned N> static void c(F * o, const Arg<F> * a, unsigned) { Op::template c<N, F>(o, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1])); }
};
template <class Op, class F, char K1, char K2, char K3> struct Reg<Op, F, K1, K2, K3> {
    static void v(F * o, const Arg<F> * a, unsigned n) { Op::template v<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2])); }
    static void s(F * o, const Arg<F> * a, unsigned n) { Op::template s<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2])); }
    template <unsigned N> static void c(F * o, const Arg<F> * a, unsigned) { Op::template c<N, F>(o, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2])); }
};
template <class Op, class F, char K1, char K2, char K3, char K4> struct Reg<Op, F, K1, K2, K3, K4> {
    static void v(F * o, const Arg<F> * a, unsigned n) { Op::template v<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2]), Get<F, K4>::get(a[3])); }
    static void s(F * o, const Arg<F> * a, unsigned n) { Op::template s<F>(o, n, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2]), Get<F, K4>::get(a[3])); }
    template <unsigned N> static void c(F * o, const Arg<F> * a, unsigned) { Op::template c<N, F>(o, Get<F, K1>::get(a[0]), Get<F, K2>::get(a[1]), Get<F, K3>::get(a[2]), Get<F, K4>::get(a[3])); }
};

template <class Op, class F, char... K> void reg() {
    const char kinds[] = { K..., 0 };
    const int na = sizeof...(K);
    typedef Reg<Op, F, K...> R;
    put<F>(Op::name(), na, kinds, 'v', 0, &R::v);
    put<F>(Op::name(), na, kinds, 's', 0, &R::s);
    put<F>(Op::name(), na, kinds, 'c', 8,  &R::template c<8>);
    put<F>(Op::name(), na, kinds, 'c', 16, &R::template c<16>);
    put<F>(Op::name(), na, kinds, 'c', 48, &R::template c<48>);
    put<F>(Op::name(), na, kinds, 'c', 64, &R::template c<64>);
    put<F>(Op::name(), na, kinds, 'c', 128, &R::template c<128>);
    enum { one = nova::vec<F>::size == 8 ? 24 : nova::vec<F>::size };          // a single vector, or three
    put<F>(Op::name(), na, kinds, 'c', one, &R::template c<one>);
}
// fewer instantiations: one fixed length only
template <class Op, class F, char... K> void reg1() {
    const char kinds[] = { K..., 0 };
    const int na = sizeof...(K);
    typedef Reg<Op, F, K...> R;
    put<F>(Op::name(), na, kinds, 'v', 0, &R::v);
    put<F>(Op::name(), na, kinds, 's', 0, &R::s);
    put<F>(Op::name(), na, kinds, 'c', 32, &R::template c<32>);
    put<F>(Op::name(), na, kinds, 'c', 64, &R::template c<64>);
}
template <class Op, class F> void reg2all() {
    reg1<Op, F, 'p', 's'>(); reg1<Op, F, 's', 'p'>(); reg1<Op, F, 'p', 'r'>(); reg1<Op, F, 'r', 'p'>();
    reg1<Op, F, 's', 's'>(); reg1<Op, F, 's', 'r'>(); reg1<Op, F, 'r', 's'>(); reg1<Op, F, 'r', 'r'>();
}
template <class Op, class F> void reg3all() {
    reg1<Op, F, 'p', 's', 's'>(); reg1<Op, F, 'p', 'p', 's'>(); reg1<Op, F, 'p', 's', 'p'>(); reg1<Op, F, 'p', 'r', 'r'>();
    reg1<Op, F, 'p', 'p', 'r'>(); reg1<Op, F, 'p', 'r', 'p'>(); reg1<Op, F, 'p', 's', 'r'>(); reg1<Op, F, 'p', 'r', 's'>();
    reg1<Op, F, 's', 'p', 'p'>(); reg1<Op, F, 'r', 'p', 'p'>(); reg1<Op, F, 's', 's', 'p'>(); reg1<Op, F, 'r', 'r', 'r'>(); reg1<Op, F, 's', 'r', 'p'>(); reg1<Op, F, 'r', 's', 'p'>();
}
template <class Op, class F> void reg4all() {
    reg1<Op, F, 'p', 's', 'p', 's'>(); reg1<Op, F, 'p', 'r', 'p', 'r'>(); reg1<Op, F, 'p', 's', 'p', 'r'>(); reg1<Op, F, 'p', 'r', 'p', 's'>();
    reg1<Op, F, 'p', 'p', 'p', 's'>(); reg1<Op, F, 'p', 'p', 'p', 'r'>(); reg1<Op, F, 's', 'p', 'r', 'p'>(); reg1<Op, F, 'r', 's', 'p', 'p'>(); reg1<Op, F, 'p', 'p', 's', 'r'>();
}

// ---- memory operations as operations without, or with, arguments ----
#define NV_MEM_CT(F, OP, NA, K, EXPR) \
    { struct X { static void f8(F * o, const Arg<F> * a, unsigned) { enum { N = 8 }; EXPR; } \
                 static void f16(F * o, const Arg<F> * a, unsigned) { enum { N = 16 }; EXPR; } \
                 static void f48(F * o, const Arg<F> * a, unsigned) { enum { N = 48 }; EXPR; } \
                 static void f128(F * o, const Arg<F> * a, unsigned) { enum { N = 128 }; EXPR; } }; \
      put<F>(OP, NA, K, 'c', 8, &X::f8); put<F>(OP, NA, K, 'c', 16, &X::f16); put<F>(OP, NA, K, 'c', 48, &X::f48); put<F>(OP, NA, K, 'c', 128, &X::f128); }
#define NV_MEM(F, OP, NA, K, FORM, EXPR) \
    { struct X { static void f(F * o, const Arg<F> * a, unsigned n) { EXPR; } }; put<F>(OP, NA, K, FORM, 0, &X::f); }

// forms: v scalar, s SIMD run-time, c SIMD compile-time (aligned); u, d: unaligned SIMD run-time / compile-time
// (alignment of source/destination chosen by the caller; x: source unaligned only, y: destination unaligned only)
template <class F> void reg_fill() {
    NV_MEM(F, "zero", 0, "", 'v', nova::zerovec(o, n))
    NV_MEM(F, "zero", 0, "", 's', nova::zerovec_simd(o, n))
    NV_MEM(F, "zero", 0, "", 'u', nova::zerovec_na_simd(o, n))
    NV_MEM_CT(F, "zero", 0, "", nova::zerovec_simd<N>(o))
    NV_MEM(F, "set", 1, "s", 'v', nova::setvec(o, a[0].v, n))
    NV_MEM(F, "set", 1, "s", 's', nova::setvec_simd(o, a[0].v, n))
    NV_MEM(F, "set", 1, "s", 'u', nova::setvec_na_simd(o, a[0].v, n))
    NV_MEM_CT(F, "set", 1, "s", nova::setvec_simd<N>(o, a[0].v))
    NV_MEM(F, "slope", 1, "r", 'v', nova::set_slope_vec(o, a[0].v, a[0].s, n))
    NV_MEM(F, "slope", 1, "r", 's', nova::set_slope_vec_simd(o, a[0].v, a[0].s, n))
    NV_MEM(F, "exp", 1, "e", 'v', nova::set_exp_vec(o, a[0].v, a[0].s, n))
    NV_MEM(F, "exp", 1, "e", 's', nova::set_exp_vec_simd(o, a[0].v, a[0].s, n))
    { struct X { static void z(F * o, const Arg<F> *, unsigned) { nova::zerovec_na_simd<16>(o); }
                 static void s(F * o, const Arg<F> * a, unsigned) { nova::setvec_na_simd<16>(o, a[0].v); } };
      put<F>("zero", 0, "", 'd', 16, &X::z); put<F>("set", 1, "s", 'd', 16, &X::s); }
}
template <class F> void reg_copy() {
    NV_MEM(F, "copy", 1, "p", 'v', nova::copyvec(o, a[0].p, n))
    NV_MEM(F, "copy", 1, "p", 's', nova::copyvec_simd(o, a[0].p, n))
    NV_MEM(F, "copy", 1, "p", 's', nova::copyvec_aa_simd(o, a[0].p, n))
    NV_MEM(F, "copy", 1, "p", 'x', nova::copyvec_na_simd(o, a[0].p, n))
    NV_MEM(F, "copy", 1, "p", 'y', nova::copyvec_an_simd(o, a[0].p, n))
    NV_MEM(F, "copy", 1, "p", 'u', nova::copyvec_nn_simd(o, a[0].p, n))
    NV_MEM_CT(F, "copy", 1, "p", (nova::copyvec_simd<N, F>(o, a[0].p)))
    { struct X { static void aa(F * o, const Arg<F> * a, unsigned) { nova::copyvec_aa_simd<32, F>(o, a[0].p); }
                 static void na(F * o, const Arg<F> * a, unsigned) { nova::copyvec_na_simd<32, F>(o, a[0].p); }
                 static void an(F * o, const Arg<F> * a, unsigned) { nova::copyvec_an_simd<32, F>(o, a[0].p); }
                 static void nn(F * o, const Arg<F> * a, unsigned) { nova::copyvec_nn_simd<32, F>(o, a[0].p); }
                 static void nn8(F * o, const Arg<F> * a, unsigned) { nova::copyvec_nn_simd<8, F>(o, a[0].p); } };
      put<F>("copy", 1, "p", 'c', 32, &X::aa); put<F>("copy", 1, "p", 'X', 32, &X::na); put<F>("copy", 1, "p", 'Y', 32, &X::an);
      put<F>("copy", 1, "p", 'd', 32, &X::nn); put<F>("copy", 1, "p", 'd', 8, &X::nn8); }
}
template <class F> void reg_add() {
    NV_MEM(F, "add", 1, "p", 'v', nova::addvec(o, a[0].p, n))
    NV_MEM(F, "add", 1, "p", 's', nova::addvec_simd(o, a[0].p, n))
    NV_MEM_CT(F, "add", 1, "p", (nova::addvec_simd<N, F>(o, a[0].p)))
    NV_MEM(F, "add", 1, "s", 'v', nova::addvec(o, a[0].v, n))
    NV_MEM(F, "add", 1, "s", 's', nova::addvec_simd(o, a[0].v, n))
    NV_MEM_CT(F, "add", 1, "s", (nova::addvec_simd<N, F>(o, a[0].v)))
    NV_MEM(F, "add", 1, "r", 'v', nova::addvec(o, a[0].v, a[0].s, n))
    NV_MEM(F, "add", 1, "r", 's', nova::addvec_simd(o, a[0].v, a[0].s, n))
    NV_MEM_CT(F, "add", 1, "r", (nova::addvec_simd<N, F>(o, a[0].v, a[0].s)))
}

#define NV_UNARY_ARITH(X) X(square) X(cube)
NV_OP(plus) NV_OP(minus) NV_OP(times) NV_OP(over) NV_OP(min) NV_OP(max) NV_OP(less) NV_OP(less_equal) NV_OP(greater) NV_OP(greater_equal)
NV_OP(equal) NV_OP(notequal) NV_OP(clip2) NV_OP(clip) NV_OP(muladd) NV_OP(ampmod) NV_OP(mix) NV_OP(sum)
NV_OP(abs) NV_OP(sgn) NV_OP(square) NV_OP(cube) NV_OP(round) NV_OP(frac) NV_OP(ceil) NV_OP(floor) NV_OP(trunc) NV_OP(undenormalize) NV_OP(reciprocal)
NV_OP(softclip) NV_OP(signed_sqrt)
NV_OP(sin) NV_OP(cos) NV_OP(tan) NV_OP(asin) NV_OP(acos) NV_OP(atan) NV_OP(tanh) NV_OP(log) NV_OP(log2) NV_OP(log10) NV_OP(exp) NV_OP(pow) NV_OP(spow)
NV_OP(midi2freq) NV_OP(freq2midi) NV_OP(midi2ratio) NV_OP(ratio2midi) NV_OP(oct2freq) NV_OP(freq2oct) NV_OP(amp2db) NV_OP(db2amp)

} // namespace nv
#endif
