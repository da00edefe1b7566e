#include "wit.hpp"
#include "library/number/barrett_reduction.hpp"
#include "library/number/bezout_equation.hpp"
#include "library/number/count_square_free.hpp"
#include "library/number/deterministic_miller_rabin.hpp"
#include "library/number/discrete_logarithm.hpp"
#include "library/number/enumerate_quotient.hpp"
#include "library/number/ext_gcd.hpp"
#include "library/number/factorial_number.hpp"
#include "library/number/factorized_form.hpp"
#include "library/number/fast_discrete_logarithm.hpp"
#include "library/number/fast_factorize.hpp"
#include "library/number/find_denominators.hpp"
#include "library/number/garner.hpp"
#include "library/number/kth_root_round.hpp"
#include "library/number/linear_sieve.hpp"
#include "library/number/min_of_mod_of_linear.hpp"
#include "library/number/mobius_function.hpp"
#include "library/number/mod_sqrt.hpp"
#include "library/number/modint.hpp"
#include "library/number/modint_2^61m1.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/number/primitive_root.hpp"
#include "library/number/rational.hpp"
#include "library/number/sieve_of_eratosthenes.hpp"
#include "library/number/sieve_of_eratosthenes_constexpr.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/number/sum_of_mobius_function.hpp"
#include "library/number/sum_of_totient_function.hpp"
#include "library/number/tetration_mod.hpp"
#include "library/number/util.hpp"
using namespace wit;
using M1 = suisen::static_modint<998244353>; using M2 = suisen::dynamic_modint<-1>; using M3 = suisen::static_modint<1000000000>;
using AM = atcoder::modint998244353; using AD = atcoder::modint;
template class suisen::static_modint<998244353>; template class suisen::static_modint<1000000000>; template class suisen::dynamic_modint<-1>;
template struct suisen::OrderMod<int>; template struct suisen::OrderMod<long long>;
template struct suisen::Rational<long long>; template struct suisen::Rational<int>;
template class suisen::SimpleSieve<1000>; template class suisen::Sieve<1000>; template class suisen::SimpleSieveConstexpr<1000>; template class suisen::SieveConstexpr<1000>;
template class suisen::MobiusFunction<1000>;
template struct suisen::sbt_node<long long>; template struct suisen::sbt_node<int>;
template struct suisen::SumOfMobiusFunction<AM>; template struct suisen::SumOfTotientFunction<AM>; template struct suisen::SumOfMobiusFunction<long long>;
template <class M> void modop() {
    M a(any<int>()), b(any<long long>()), c(any<unsigned>()), d(any<unsigned long long>()), f(any<bool>()), g(any<char>()), h(any<short>());
    sink(a + b, a - b, a * b, a / b, a == b, a != b, ++a, --a, a++, a--, a.inv(), a.pow(5), a.val(), M::mod(), M::umod(), M::raw(3));
    a += b; a -= b; a *= b; a /= b; sink(a + 1, 1 + a, 2LL * a, f, g, h);
}
template <class M> void modext() {
    M a, b; sink(a.xpow(-3), suisen::mod_sqrt(a), suisen::inv(a), suisen::pow(a, 3), suisen::sqrt(a), suisen::log(a), suisen::exp(a)); std::cin >> a; std::cout << b;
}
void use_mod() {
    modop<M1>(); modop<M2>(); modop<M3>(); modext<M1>(); modext<M3>(); M2::set_mod(5);
    M1 i128a(any<__int128_t>()), i128b(any<__uint128_t>()); M2 i128c(any<__int128_t>()), i128d(any<__uint128_t>());
    suisen::modint2p61m1 x(any<uint64_t>()), y; sink(x + y, x - y, x * y, x == y, x.pow(3), x.inv(), x.val()); x += y; x -= y; x *= y;
    suisen::barrett bt(7); sink(bt.quo(3), bt.rem(3), bt.quorem(3), bt.mul(1, 2), bt.quo<false>(3), bt.rem<false>(3), bt.quorem<false>(3), bt.mul<false>(1, 2), bt.mod());
    suisen::Montgomery32 m32(7); suisen::Montgomery64 m64(7); sink(m32.make(3), m32.mul(1, 2), m32.pow(2, 3), m64.make(3), m64.mul(1, 2), m64.pow(2, 3));
}
template <class T> void nt(T n) {
    using namespace suisen;
    sink(miller_rabin::is_prime(n), quotient_num(n), enumerate_quotients(n), quotient_ranges(n), multiple_quotients_ranges(std::vector<T>{}), fast_factorize::factorize(n));
    foreach_quotients(n, [](T) {});
    sink(floor_kth_root(n, 3), ceil_kth_root(n, 3), powi(n, 3), factorize(n), divisors(n), totient(n), carmichael(n), primitive_root(n));
}
template <class T> void fd(T n) { using namespace suisen; sink(fld_denominators_positive(n, n), fld_denominators_negative(n, n), cld_denominators_positive(n, n), cld_denominators_negative(n, n)); }
void use_nt() {
    using namespace suisen; nt<int>(3); nt<long long>(3); fd<int>(3); fd<long long>(3);
    BezoutEquation be(1, 2); auto s = be.solve(3); sink(s.count(), s.count<int>());
    sink(discrete_logarithm(AD(3), AD(4)), suisen::composite_mod_sqrt(3, std::vector<std::pair<long long, int>>{}));
    factorial_number fn; Rational<long long> r; std::cout << r; sink(std::max(r, r), std::min(r, r));
    sbt_node<long long> a; auto aux = sbt_node<long long>::auxiliary_tree({a}); (void) aux;
}
