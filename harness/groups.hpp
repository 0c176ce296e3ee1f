// Which operations a driver is built with (compile time is what they cost).
#ifndef GROUPS_HPP
#define GROUPS_HPP
#include "reg.hpp"
using namespace nv;
struct op_exp1 {    // the exponential function; "exp" is the exponential fill
    static const char * name() { return "exp1"; }
    template <class F, class... A> static void v(F * o, unsigned n, A... a) { nova::exp_vec(o, a..., n); }
    template <class F, class... A> static void s(F * o, unsigned n, A... a) { nova::exp_vec_simd(o, a..., n); }
    template <unsigned N, class F, class... A> static void c(F * o, A... a) { nova::exp_vec_simd<N>(o, a...); }
};

namespace {     // differs from one translation unit to the next
template <class F> void register_ops() {
#ifdef G_ARITH
    reg<op_plus, F, 'p', 'p'>(); reg<op_minus, F, 'p', 'p'>(); reg<op_times, F, 'p', 'p'>(); reg<op_over, F, 'p', 'p'>();
    reg<op_square, F, 'p'>(); reg<op_cube, F, 'p'>();
    reg<op_muladd, F, 'p', 'p', 'p'>(); reg<op_ampmod, F, 'p', 'p', 'p'>(); reg<op_mix, F, 'p', 'p', 'p', 'p'>();
    reg<op_sum, F, 'p', 'p'>(); reg<op_sum, F, 'p', 'p', 'p'>(); reg<op_sum, F, 'p', 'p', 'p', 'p'>();
#endif
#ifdef G_ARITH_KINDS
    reg2all<op_plus, F>(); reg2all<op_minus, F>(); reg2all<op_times, F>(); reg2all<op_over, F>();
    reg3all<op_muladd, F>(); reg3all<op_ampmod, F>();
#endif
#ifdef G_MIX_KINDS
    reg4all<op_mix, F>(); reg2all<op_sum, F>(); reg3all<op_sum, F>(); reg4all<op_sum, F>();
#endif
#ifdef G_CMP
    reg<op_less, F, 'p', 'p'>(); reg<op_less_equal, F, 'p', 'p'>(); reg<op_greater, F, 'p', 'p'>(); reg<op_greater_equal, F, 'p', 'p'>();
    reg<op_equal, F, 'p', 'p'>(); reg<op_notequal, F, 'p', 'p'>();
#endif
#ifdef G_CMP_KINDS
    reg2all<op_less, F>(); reg2all<op_less_equal, F>(); reg2all<op_greater, F>(); reg2all<op_greater_equal, F>(); reg2all<op_equal, F>(); reg2all<op_notequal, F>();
#endif
#ifdef G_MINMAX
    reg<op_min, F, 'p', 'p'>(); reg<op_max, F, 'p', 'p'>(); reg<op_clip2, F, 'p', 'p'>(); reg<op_clip, F, 'p', 'p', 'p'>();
#endif
#ifdef G_MINMAX_KINDS
    reg2all<op_min, F>(); reg2all<op_max, F>(); reg2all<op_clip2, F>(); reg3all<op_clip, F>();
#endif
#ifdef G_ROUND
    reg<op_round, F, 'p'>(); reg<op_frac, F, 'p'>(); reg<op_ceil, F, 'p'>(); reg<op_floor, F, 'p'>(); reg<op_trunc, F, 'p'>();
#endif
#ifdef G_CLASS
    reg<op_abs, F, 'p'>(); reg<op_sgn, F, 'p'>(); reg<op_undenormalize, F, 'p'>();
#endif
#ifdef G_SOFT
    reg<op_softclip, F, 'p'>();
#endif
#ifdef G_ROOT
    reg<op_signed_sqrt, F, 'p'>(); reg<op_reciprocal, F, 'p'>();
#endif
#ifdef G_MATH
    reg<op_sin, F, 'p'>(); reg<op_cos, F, 'p'>(); reg<op_tan, F, 'p'>(); reg<op_asin, F, 'p'>(); reg<op_acos, F, 'p'>(); reg<op_atan, F, 'p'>(); reg<op_tanh, F, 'p'>();
    reg<op_log, F, 'p'>(); reg<op_log2, F, 'p'>(); reg<op_log10, F, 'p'>(); reg<op_exp1, F, 'p'>();
#endif
#ifdef G_POW
    reg<op_pow, F, 'p', 'p'>(); reg<op_spow, F, 'p', 'p'>();
    reg1<op_pow, F, 'p', 's'>(); reg1<op_pow, F, 's', 'p'>(); reg1<op_spow, F, 'p', 's'>(); reg1<op_spow, F, 's', 'p'>();
#endif
#ifdef G_UNIT
    reg<op_midi2freq, F, 'p'>(); reg<op_freq2midi, F, 'p'>(); reg<op_midi2ratio, F, 'p'>(); reg<op_ratio2midi, F, 'p'>();
    reg<op_oct2freq, F, 'p'>(); reg<op_freq2oct, F, 'p'>(); reg<op_amp2db, F, 'p'>(); reg<op_db2amp, F, 'p'>();
#endif
#ifdef G_FILL
    reg_fill<F>();
#endif
#ifdef G_COPY
    reg_copy<F>();
#endif
#ifdef G_ADD
    reg_add<F>();
#endif
}
} // namespace
#endif
