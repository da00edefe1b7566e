#include "wit.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/convolution/convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/util/static_bitset.hpp"
#include "library/geom/geometry.hpp"
#include "library/graph/bfs.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/single_source_shortest_path_dag.hpp"
#include "library/integral_geom/farthest_pair.hpp"
#include "library/integral_geom/point.hpp"
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/math/bigint.hpp"
#include "library/math/binomial_coefficient_sum.hpp"
#include "library/math/factorial.hpp"
#include "library/math/factorial_embeded.hpp"
#include "library/math/factorial_large.hpp"
#include "library/math/inv_mods.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/util.hpp"
#include "library/number/montogomery.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/sequence/binomial_coefficient.hpp"
#include "library/sequence/stirling_number1.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/trie_map.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/default_operator.hpp"
#include "library/util/permutation.hpp"
#include "library/util/timer.hpp"
#include "library/util/variant_utils.hpp"
using namespace wit;
using mint = atcoder::modint998244353;
void w1() {
    using namespace suisen;
    std::vector<mint> a(8), b(8);
    sink(or_convolution(a, b), xor_convolution(a, b));
    walsh_hadamard_transform::walsh_hadamard(a); walsh_hadamard_transform::walsh_hadamard_inv(a);
    std::vector<long long> c(8); walsh_hadamard_transform::walsh_hadamard(c); walsh_hadamard_transform::walsh_hadamard_inv(c);
    DequeAggregation<S, op, e> q; auto i = q.begin(); sink(1 + i, i + 1, i - 1);
    QueueAggregation<S, S, e, op, S, op> p; auto j = p.begin(); sink(1 + j, j + 1, j - 1);
    static_bitset<70> bs; std::cout << bs;
}
void w2() {
    using namespace suisen;
    std::vector<std::pair<int, int>> es{{0, 1}};
    BFS f(3, es); sink(f);
    auto g = [](int u, auto relax) { relax(u + 1, true); };
    BFS01 z(3, 0, g), y(3, std::vector<int>{0}, g); const auto& cz = z;
    sink(cz[0], cz.is_reachable(0), cz.is_unreachable(0), y);
    MapBFS01<int> m(0, g), n(std::vector<int>{0}, g); const auto& cm = m; sink(cm[0], cm.is_reachable(1), n);
    KruscalMinimumSpanningTree<int> k; k.add_edge({0, 1, 2}); sink(k.build());
    Graph<int> wg(3, std::vector<std::tuple<int, int, int>>{}, directed_graph_tag{}); sink(single_source_shortest_path_dag(wg, 0));
}
void w3() {
    using namespace suisen;
    std::pair<int, long long> p; std::tuple<int, std::string, char> t; std::vector<int> v(3);
    io::InputStream is(std::cin); is.read(p, t, v); sink(is.get_stream());
    io::OutputStream os(std::cout); os.print(); os.print(p, t, v, (__int128_t) 1, (__uint128_t) 1); os.print_all(v); os.print_all(v, ",", ";");
}
void w4() {
    using namespace suisen;
    std::vector<std::vector<int>> A(2, std::vector<int>(2));
    GaussianEliminationArithmetic<double> ga(std::vector<std::vector<double>>(2, std::vector<double>(2)), std::vector<double>(2)); GaussianEliminationF2<int> gf(A, std::vector<int>(2)); sink(ga.get_solution(), gf.get_solution());
    bigint x(3), y(3LL); unsigned_bigint u(3u), w(3ULL); sink(x, y, u, w);
    factorial<mint> f; sink(f.polynom(3, 1, 2), f.binom(3, 1), f.perm(3, 1), f.fac(3), f.fac_inv(3));
    factorial_large<mint> fl; sink(fl.polynom(3, 1, 2));
    sink(inv_mods<mint>()[3], get_invs(std::vector<mint>{1, 2}), binom_table<mint>(4), stirling_number1_reversed<mint>(5, 2), binom_sum<mint>(std::vector<std::tuple<int, int, int>>{}));
    Rational<long long> r, s; sink(std::max(r, s), std::min(r, s));
}
void w5() {
    using namespace suisen;
    CoordinateCompressorBuilder<int> cb; std::vector<int> v{1}; cb.push(v); cb.push(v.begin(), v.end()); cb.emplace(3); cb.push(4); sink(cb.build());
    sink(default_operator::sub<int>(1, 2), default_operator::div<int>(1, 2), default_operator::mod<int>(1, 2), default_operator_noref::sub<int>(1, 2), default_operator_noref::div<int>(1, 2), default_operator_noref::mod<int>(1, 2));
    Permutation pm(3); const auto& cp = pm; sink(cp.inv_permute(v), cp.permute(v));
    std::vector<std::vector<int>> g(3);
    RootedTreeClassifier<> tc; sink(tc.classify(g, 0), tc.classify_rerooting(g), tc.classify_subtrees(g, 0));
    HeavyLightDecomposition h(g); const auto& ch = h;
    ch.update_subtree(0, [](int, int) {}); sink(ch.get_point<S>(0, [](int) -> S { return S(); }));
    EulerTour et(g, [](int v) { return v; }); sink(et);
}
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
using RC = suisen::RangeChMinMaxAddRangeSum<long long>;
bool rc_pred(RC::DataType) { return true; }
void w6() {
    RC r(std::vector<long long>(4));
    auto f = [](RC::DataType) { return true; };
    sink(r.max_right<rc_pred>(0), r.min_left<rc_pred>(0), r.max_right(0, f), r.min_left(0, f));
}
