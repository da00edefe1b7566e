#include "wit.hpp"
#include <atcoder/modint>
#include "library/convolution/multi_variate_convolution_circular.hpp"
#include "library/convolution/relaxed_convolution.hpp"
#include "library/convolution/relaxed_convolution_ntt.hpp"
#include "library/convolution/semi_relaxed_convolution.hpp"
#include "library/convolution/semi_relaxed_convolution_ntt.hpp"
#include "library/polynomial/array_fps_naive.hpp"
#include "library/polynomial/formal_power_series_relaxed.hpp"
#include "library/polynomial/fps.hpp"
#include "library/polynomial/fps_naive.hpp"
#include "library/polynomial/rational_fps.hpp"
#include "library/polynomial/vec_sparse_fps.hpp"
using namespace wit;
using mint = atcoder::modint998244353;
template struct suisen::multi_variate_convolution_circular<mint>;
template struct suisen::RelaxedConvolution<mint>; template struct suisen::RelaxedConvolutionNTT<mint>; template struct suisen::SemiRelaxedConvolution<mint>; template struct suisen::SemiRelaxedConvolutionNTT<mint>;
template struct suisen::ArrayFPSNaive<mint, 5>;
template struct suisen::RelaxedInv<mint>; template struct suisen::RelaxedExp<mint>; template struct suisen::RelaxedLog<mint>; template struct suisen::RelaxedPow<mint>; template struct suisen::RelaxedSqrt<mint>;
template struct suisen::FPS<mint>; template struct suisen::FPSNaive<mint>;
template struct suisen::RationalFPS<suisen::FPS<mint>>;
template struct suisen::VecSparseFPS<int, mint>;
template <class P> void ring(P a, const P& b, mint c) {
    sink(a + b, a - b, a * b, a + c, a - c, a * c, c * a, a << 2, a >> 2, -b, +b); a += b; a -= b; a *= b; a += c; a -= c; a *= c; a <<= 1; a >>= 1;
}
template <class P> void field(P a, const P& b) { sink(a / b, a % b); a /= b; a %= b; }
void use(suisen::FPS<mint> a, suisen::FPSNaive<mint> b, suisen::ArrayFPSNaive<mint, 5> d, suisen::RationalFPS<suisen::FPS<mint>> r, suisen::VecSparseFPS<int, mint> v, mint c) {
    ring(a, a, c); ring(b, b, c); ring(d, d, c); field(a, a); field(b, b); sink(d / d, d % d); d /= d; d %= d;
    sink(c + a, c - a, a / c, a == a, a != a, b == b, b != b); a /= c;
    sink(a.diff(), a.intg(), a.inv(5), a.log(5), a.exp(5), a.pow(3, 5), a.sqrt(5), a.safe_sqrt(5), a.div_mod(a), a.eval(c), a.cut_copy(3), a.cut_copy(1, 3), a.deg(), suisen::FPS<mint>::prod(std::vector<suisen::FPS<mint>>{}));
    { const suisen::FPS<mint>& ca = a; sink(ca.diff(), ca.intg(), ca.inv(5), ca.log(5), ca.exp(5), ca.pow(3, 5), ca.sqrt(5), ca.safe_sqrt(5), ca.div_mod(a), ca.eval(c), ca.cut_copy(3), ca.deg()); }
    sink(b.diff(), b.intg(), b.inv(5), b.log(5), b.exp(5), b.pow(3, 5), b.sqrt(5), b.safe_sqrt(5), b.eval(c));
    sink(sqrt(a), log(a), exp(a), pow(a, 4), inv(a), sqrt(b), log(b), exp(b), pow(b, 4), inv(b), sqrt(d), log(d), exp(d), pow(d, 4), inv(d));
    sink(r + r, r - r, r * r, r * c, r / c, c * r, c / r, -r, +r); r += r; r -= r; r *= r; r *= c; r /= c;
    sink(v + v, v - v, v * v, v * std::vector<mint>{}, std::vector<mint>{} * v, -v, v[3]); v.clear(); v.add_to_last(3, c); v.add_to_last({ 3, std::vector<mint>{} });
    suisen::VecSparseFPS<int, mint> w(std::vector<std::pair<int, mint>>{}); sink(suisen::VecSparseFPS<int, mint>::bostan_mori(v, std::vector<mint>{}, 5ll));
    sink(v.begin(), v.end());
}
