#include "wit.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/util/grid_utils.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/util/update_proxy_object.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/permutation.hpp"
#include "library/math/set_power_series.hpp"
#include "library/math/array_set_power_series.hpp"
#include "library/math/modint_extension.hpp"
#include "library/algebra/field/nimber.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/polynomial/polynomial_gcd.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/trie_map.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/transform/kronecker.hpp"
#include "library/transform/kronecker_power.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/euler_tour.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/heavy_light_decomposition.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/topological_sort.hpp"
#include "library/graph/kruscal.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/dp/longest_increasing_subsequence.hpp"
#include "library/convolution/convolution.hpp"
#include "library/convolution/or_convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
using namespace wit;
using namespace suisen;
using mint = atcoder::modint998244353;
template struct AdjacentCells<4, dx4, dy4>; template struct AdjacentCellsBounded<8, dx8, dy8>;
template struct suisen::VecZobristHash<>; template struct suisen::MapZobristHash<std::string>;
void grids() {
    sink(in_range(1, 0, 2), in_range(1, 2), out_range(1, 0, 2), out_range(1, 2));
    for (auto [x, y] : adjacent_four_cells(1, 1)) sink(x, y);
    for (auto [x, y] : adjacent_four_cells(1, 1, 5, 5)) sink(x, y);
    for (auto [x, y] : adjacent_eight_cells(1, 1, 0, 5, 0, 5)) sink(x, y);
    for (auto [x, y] : adjacent_eight_cells(1, 1)) sink(x, y);
    std::vector<std::pair<int, int>> v = adjacent_eight_cells(1, 1, 5, 5), w = adjacent_four_cells(1, 1);
    for (const auto& [i, j, k] : product_range(2, 3L, 4)) sink(i, j, k);
}
void hashes() {
    VecZobristHash<> h(5); MapZobristHash<std::string> m;
    sink(h(3), h.empty_set(), h.sigleton_set(2), h.flip(1, 2), h.xor_set(1, 2), m("a"), m.flip(0, "b"));
}
template <class P> void sps() {
    P f(8), g(8); mint c = 2;
    sink(f + g, f - g, f * g, f * c, c * f, f / c, +f, -f);
    auto zf = f.zeta(), zg = g.zeta();
    sink(zf + zg, zf - zg, zf * zg, zf * c, c * zf, zf / c, +zf, -zf);
}
template void sps<suisen::SetPowerSeries<mint>>();
void proxies() {
    int v = 0; auto u = [] {};
    using P = UpdateProxyObject<int, decltype(u)>;
    ++P(v, u); --P(v, u); P(v, u) += 1; P(v, u) -= 1; P(v, u) *= 1; P(v, u) /= 1; P(v, u) %= 1; P(v, u) = 1; P(v, u) <<= 1; P(v, u) >>= 1;
    P(v, u).apply([](int x) { return x + 1; }); sink(int(P(v, u)));
}
void numbers() {
    nimber x, y; sink(x + y, x - y, x * y, x / y, x == y, x != y, x < y, x <= y, x > y, x >= y, +x, -x, x += y, x -= y, x *= y, x /= y, bool(x), uint64_t(x), std::hash<nimber>()(x));
    Affine<long long> a, b; sink(a + 1LL, a - 1LL, a + b, a - b, a == b, a != b, a < b, a <= b, a > b, a >= b, +a, -a, a(3));
    AffineClamp<long long> g; std::istream& (*rd)(std::istream&, AffineClamp<long long>&) = [](std::istream& i, AffineClamp<long long>& f) -> std::istream& { return operator>>(i, f); }; operator<<(std::cout, g); sink(rd);
    Rational<long long> p, q; sink(p < q, p > q, p <= q, p >= q, p == q, p != q, p + q, p - q, p * q, p / q, +p, -p, std::max(p, q), std::min(p, q), int(p), double(p));
    ptr32<int> s{nullptr}, t{nullptr}; sink(s == t, s != t, s < t, s <= t, s > t, s >= t);
}
template <class P> void fps() {
    P f{1, 2}, g{1, 1}; const P cf = f; typename P::value_type c = 3;
    sink(+f, -f, ++f, --f, f++, f--, f + c, c + f, f - c, c - f, f * c, c * f, f / c, f + g, f - g, f * g, f / g, f % g, f << 1, f >> 1, f == g, f != g);
    f += c; f -= c; f *= c; f /= c; f += g; f -= g; f *= g; f /= g; f %= g; f <<= 1; f >>= 1;
    sink(cf.inv(4), cf.log(4), cf.exp(4), cf.pow(3, 4), cf.diff(), cf.intg(), cf.cut_copy(3), cf.deg(), cf.eval(c), cf.safe_sqrt(4));
}
void fpsall() { fps<FormalPowerSeries<mint>>(); }
void texts() {
    SuffixAutomaton<char> sa("abc"); const auto& c = sa;
    sink(c.accept("a"), c.transition("a"), c.longest_common_substring("a"), c.topological_order(), c.substring_counter().count("a"), c.occurrence_enumerator().enumerate_all_occurrence("a"), c.first_occurence_searcher().first_occurrence("a"));
    PalindromicTree<int> t; t.add(1); const auto& ct = t;
    sink(ct.first_occurence(2), ct.length(2), ct.node_num());
}
void trees() {
    SortableSegmentTree<S, op, e, toggle> s;
    s.max_right(0, [](const S&) { return true; }); s.min_left(1, [](const S&) { return true; });
    LiChaoSegmentTree<long long> l(std::vector<long long>{1, 2}); const auto& cl = l; l.add_line(1, 2); l.add_segment(1, 2, 0, 1); sink(cl(1));
    LiChaoSegmentTree<long long, false> m(std::vector<long long>{1, 2}); sink(m(1));
    SegmentTree2DSparse<S, op, e> d(2); sink(d.max_up(0, 1, 0, pred), d.min_down(0, 1, 1, pred));
    RangeChMinMaxAddRangeSum<long long> r(5);
    using D = decltype(r.prod(0, 1));
    sink(r.max_right(0, [](const D&) { return true; }), r.min_left(1, [](const D&) { return true; }));
}
void transforms() {
    std::vector<mint> x(8);
    kronecker_power_transform::kronecker_power_transform<mint>(x, std::vector<std::vector<mint>>(2, std::vector<mint>(2)));
    kronecker_power_transform::kronecker_power_transform<mint>(x, 2, [](std::vector<mint>&) {});
    kronecker_transform::transform(x, std::vector<int>{2, 2, 2}, [](int, StepView<std::vector<mint>>) {});
    kronecker_transform::transform(x, 2, [](StepView<std::vector<mint>>) {});
    kronecker_transform::sub_zeta(x, std::vector<int>{2, 4});
}

void combi() {
    std::vector<std::vector<int>> g(3);
    EulerTour et([&](int u, auto f) { for (int v : g[u]) f(v); }, 3); sink(et);
    sink(longest_nondecreasing_subsequence(std::vector<int>{1}), longest_nonincreasing_subsequence(std::vector<int>{1}));
    sink(polynomial_gcd(FormalPowerSeries<mint>{1, 1}, FormalPowerSeries<mint>{1, 2}), polynomial_inv(FormalPowerSeries<mint>{1, 1}, FormalPowerSeries<mint>{1, 2}));
    MinCostFlow<int, long long> f(3); sink(f.min_cost_max_flow(0, 1));
}
