#include "wit.hpp"
#include "library/math/array_set_power_series.hpp"
#include "library/math/bigint.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/factorial.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/pow_mods.hpp"
#include "library/math/product_of_differences.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/sum_i^d_r^i.hpp"
#include "library/math/unsigned_bigint.hpp"
#include "library/math/util.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/sequence/bell_number.hpp"
#include "library/sequence/bernoulli_number.hpp"
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/binomial_coefficient_small_prime_mod.hpp"
#include "library/sequence/binomial_coefficitnt_enumeration.hpp"
#include "library/sequence/eulerian_number.hpp"
#include "library/sequence/montmort_number.hpp"
#include "library/sequence/partition_number.hpp"
#include "library/sequence/powers.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/sequence/stirling_number1_small_prime_mod.hpp"
#include "library/sequence/stirling_number2.hpp"
#include "library/sequence/stirling_number2_small_prime_mod.hpp"
#include "library/sequence/sum_of_powers.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
using namespace wit;
using AM = atcoder::modint998244353; using FP = suisen::FormalPowerSeries<AM>; using AD = atcoder::modint;
template struct suisen::ArraySetPowerSeries<AM, 5>; template struct suisen::SetPowerSeries<AM>;
template struct suisen::factorial<AM>; template struct suisen::factorial<long long>; template struct suisen::factorial_large<AM>;
template class suisen::inv_mods<AM>;
template class suisen::static_pow_mods<2, AM>; template struct suisen::pow_mods<AM>;
template struct suisen::sum_i_i_pow_d_r_pow_i<AM>;
template struct suisen::BinomialCoefficientSmallPrimeMod<AD>; template struct suisen::ArbitraryModBinomialCoefficients<AD>;
template struct suisen::StirlingNumber1SmallPrimeMod<AD>; template struct suisen::StirlingNumber2SmallPrimeMod<AD>;
template struct suisen::Affine<AM>; template struct suisen::Affine<long long>; template struct suisen::AffineClamp<long long>;
void use() {
    using namespace suisen; AM a;
    sink(safe_sqrt(a), bell_number<FP>(5), bernoulli_number<FP>(5), eulerian_number<FP>(5), montmort_number<AM>(5), partition_number<FP>(5), powers<AM>(3, 4), stirling_number1<FP>(5), stirling_number2<FP>(5), sum_of_powers<FP>(3, 4));
    
    nimber x, y; sink(x + y, x * y, x - y, x / y, x == y, x.inv(), x.pow(3)); std::cin >> x; std::cout << x; Affine<long long> f; std::cin >> f; std::cout << f; AffineClamp<long long> g; 
    bigint b("12"); unsigned_bigint u("12"); std::cin >> b >> u; std::cout << b << u; sink(b + b, b - b, b * b, b / b, b % b, u + u, u - u, u * u, u / u, u % u, b < b, u < u);
}
