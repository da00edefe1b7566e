#include "wit.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/algorithm/inversion_number.hpp"
#include "library/algorithm/maximum_rectangle.hpp"
#include "library/algorithm/maximum_square.hpp"
#include "library/algorithm/monotone_minima.hpp"
#include "library/convolution/array_subset_convolution.hpp"
#include "library/convolution/dirichlet_convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/convolution_naive.hpp"
#include "library/graph/chromatic_number.hpp"
#include "library/graph/manhattan_minimum_distances.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/integral_geom/point.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/linear_algebra/hessenberg_reduction.hpp"
#include "library/sequence/binomial_coefficient_small_r_offline.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/transform/chirp_z_transform.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/supset.hpp"
#include "library/tree/find_centroid.hpp"
#include "library/util/bit_utils.hpp"
#include "library/util/container_utils.hpp"
#include "library/util/hashes.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/pair_ops.hpp"
#include "library/util/rot90.hpp"
#include "library/util/search.hpp"
#include "library/util/sum_count.hpp"
#include "library/util/transpose.hpp"
#include "library/util/tuple_ops.hpp"
#include "library/util/variant_utils.hpp"
#include "library/util/vector_ops.hpp"
using namespace wit;
using mint = atcoder::modint998244353;
using namespace suisen;
void algorithms(std::vector<K> a, std::vector<std::vector<bool>> g, std::vector<int> v, std::vector<mint> p, std::vector<std::vector<int>> t, std::string s) {
    sink(inversion_number(a), inversion_number(v)); sink(maximum_rectngle(g), maximum_square(g));
    maximal_rectangles(g, [](int, int, int, int) {}); maximal_rectangles_hist(v, [](int, int, int) {});
    sink(monotone_minima(3, 4, [](size_t, size_t) { return 1LL; }), monotone_minima(3, 4, [](size_t, size_t, size_t) { return true; }));
    sink(array_ranked_subset_transform::ranked_zeta<mint, 4>(p)); auto r = array_ranked_subset_transform::ranked_zeta<mint, 4>(p); sink(array_ranked_subset_transform::deranked_mobius<mint, 4>(r));
    sink(dirichlet_convolution(p, p, 9), dirichlet_convolution_coprime(p, p, 9));
    sink(manhattan_minimum_distances(std::vector<std::pair<int, int>>{}), manhattan_minimum_distances(std::vector<std::pair<long long, long long>>{}));
    sink(hessenberg_reduction(any<Matrix<mint>>())); sink(binomial_coefficient_small_r_offline<mint>(std::vector<std::pair<long long, int>>{}));
    sink(morris_pratt::morris_pratt(s), morris_pratt::morris_pratt(v), morris_pratt::morris_pratt(a), morris_pratt::min_period(s), morris_pratt::all_periods(s.begin(), s.end())); morris_pratt::min_period(s.begin(), s.end(), s.begin()); morris_pratt::MatcherMP<std::string> m(s); sink(m(s), m.enumerate_occurences(s));
    sink(find_centroids(t));
}
void transforms(std::vector<mint> p, std::vector<long long> l, std::vector<int> dims) {
    sink(chirp_z_transform(p, mint(1), mint(2), 5, [](const std::vector<mint>& a, const std::vector<mint>&) { return a; }));
    kronecker_transform::sub_zeta(p, 3); kronecker_transform::sub_zeta(p, dims); kronecker_transform::sub_mobius(p, 3); kronecker_transform::sub_mobius(p, dims); kronecker_transform::sup_zeta(p, 3); kronecker_transform::sup_zeta(p, dims); kronecker_transform::sup_mobius(p, 3); kronecker_transform::sup_mobius(p, dims);
    supset_transform::zeta(p); supset_transform::mobius(p); supset_transform::zeta(l); supset_transform::mobius(l);
}
void utilities(int x, unsigned long long y, std::vector<int> v, std::vector<K> a, K k, std::set<int> st, std::string s, std::vector<std::string> vs, std::vector<std::vector<S>> g) {
    sink(popcount(x), popcount(y), count_lz(x), count_lz(y), count_tz(x), count_tz(y), floor_log2(x), floor_log2(y), ceil_log2(x), ceil_log2(y), kth_bit(x, 3), kth_bit(y, 3), parity(x), parity(y));
    concat(v, v); sink(concatenated(v, v), join(v, " ", "\n"), split(s, ','), digits(x), digits(x, 2), digits_str(x), digits_str<7>(y, 5), count_geq(a, k), count_gt(a, k), count_leq(a, k), count_lt(a, k), max_leq(a, k), max_lt(a, k), min_geq(a, k), min_gt(a, k), max_leq(st, 3), max_lt(st, 3), min_geq(st, 3), min_gt(st, 3));
    sink(copied_vec<int>(s), mapped_vec([](char c) { return c - 'a'; }, s));
    sink(std::hash<std::pair<int, int>>{}(std::pair<int, int>{}), std::hash<std::tuple<int, long long, std::string>>{}(std::tuple<int, long long, std::string>{}), std::hash<std::array<int, 3>>{}(std::array<int, 3>{}));
    sink(rot90(g), rot90(vs), transpose(g), transpose(vs));
    sink(binary_search(0, 10, [](int) { return true; }), binary_search_exponential(0LL, [](long long) { return true; }), ternary_search_key<ternary_search_tag::Convex>(0.0, 1.0, 50, [](double z) { return z; }), ternary_search_value<ternary_search_tag::Concave>(0.0, 1.0, 50, [](double z) { return z; }), ternary_search_key<ternary_search_tag::Convex>(0, 9, [](int z) { return z; }), ternary_search_value<ternary_search_tag::Concave>(0, 9, [](int z) { return z; }));
    sink(sum_count(1, 2, 3, 4, 5), sum_count_geq(1, 2, 3, 4, 5), sum_count_gt(1, 2, 3, 4, 5), sum_count_leq(1, 2, 3, 4, 5), sum_count_lt(1, 2, 3, 4, 5));
}
void operators(std::pair<int, long long> p, std::tuple<int, long long, double> t, std::vector<int> v, std::variant<int, double> w) {
    sink(p + p, p - p, p * 3, 3 * p, t + t, t - t, t * 2, 2 * t, t / 2, v + v, v + 3, v * 3); p += p; p -= p; p *= 3; t += t; t -= t; t *= 2; t /= 2; v += v; v += 3; v *= 2;
    Match(w).with<int>([](int) {}).with<double>([](double) {}); Match(w).with<int>([](int) {}).otherwise([] {});
}
