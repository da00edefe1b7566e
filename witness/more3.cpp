#include "wit.hpp"
#include <atcoder/modint>
#include <atcoder/convolution>
#include "library/convolution/convolution.hpp"
#include "library/convolution/xor_convolution.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/functional_graph.hpp"
#include "library/io/input_stream.hpp"
#include "library/io/output_stream.hpp"
#include "library/math/array_set_power_series.hpp"
#include "library/math/modint_extension.hpp"
#include "library/math/util.hpp"
#include "library/number/factorized_form.hpp"
#include "library/number/rational.hpp"
#include "library/number/stern_brocot_tree.hpp"
#include "library/number/order_Z_mZ.hpp"
#include "library/polynomial/formal_power_series.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/suffix_automaton.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/compare_substring.hpp"
#include "library/transform/walsh_hadamard.hpp"
#include "library/tree/centroid_decomposition.hpp"
#include "library/tree/rerooting.hpp"
#include "library/tree/rerooting_invertible.hpp"
#include "library/tree/static_top_tree.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
#include "library/util/timer.hpp"
#include "library/util/variant_utils.hpp"
#include "library/util/vector_ops.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/debug/suffix_automaton.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/graph/bfs_complement.hpp"
#include "library/algebra/monoid/affine.hpp"
#include "library/algebra/monoid/affine_clamp.hpp"
#include "library/integral_geom/point.hpp"
#include "library/geom/geometry.hpp"
using namespace wit;
using mint = atcoder::modint998244353;
struct TT { long long a = 0; };
TT tt_vertex(int) { return {}; }
TT tt_add_edge(TT&, int, int) { return {}; }
TT tt_merge(TT&, TT&) { return {}; }
TT tt_add_root(TT&, int) { return {}; }
void v1() {
    using namespace suisen;
    std::vector<long long> a(8), b(8); sink(xor_convolution(a, b));
    std::vector<mint> c(8), d(8); sink(xor_convolution(c, d));
    using namespace suisen::walsh_hadamard_transform;
    sink(convolution::transform_convolution<mint, walsh_hadamard<mint>, walsh_hadamard_inv<mint>>(std::vector<std::vector<mint>>{c, d}));
    BinaryTrie<unsigned, 8> bt; std::cout << bt;
    std::pair<int, long long> p; std::tuple<int, std::string, char> t; io::read(p, t); io::print(p, t); io::print(); io::print_all(a); io::print_all(a, ",");
    ArraySetPowerSeries<mint, 4> f, g; sink(f + g, f - g, f * g, f * mint(2), mint(2) * f, f / mint(2));
    auto zf = f.zeta(), zg = g.zeta(); sink(zf + zg, zf - zg, zf * zg, zf * mint(2), mint(2) * zf, zf / mint(2));
    mint m = 1; sink(log(m), exp(m), pow(m, 3), inv(m));
}
void v2() {
    using namespace suisen;
    PrimePower<long long> pp{2, 1}; const auto& cpp = pp; sink(pp.get<0>(), pp.get<1>(), cpp.get<0>(), cpp.get<1>()); auto [q, w] = pp; sink(q, w);
    Rational<long long> r, s; sink(max(r, s), min(r, s));
    FormalPowerSeries<mint> f{1, 2}; sink(f.cut_copy(1), f.log_inplace(3)); f.pow_inplace(3, 4); f.sqrt_inplace(3); sink(f.sqrt(3), sqrt(f), log(f), exp(f), pow(f, 3), inv(f));
    std::vector<std::vector<int>> g(3);
    static_toptree st(g, 0); auto dp = st.tree_dp<TT, TT, tt_vertex, tt_add_edge, tt_merge, tt_add_root, tt_merge>(); sink(dp(), dp.answer(), dp.update(0));
    RootedTreeClassifier<> tc; sink(tc.is_isomorphic(g, g), tc.is_isomorphic_rooted(g, 0, g, 0));
    RootedTreeClassifier<IDHandlerZobrist<2>> tz; sink(tz.is_isomorphic(g, g), tz.is_isomorphic_rooted(g, 0, g, 0), tz.classify_rerooting(g));
}
void v3() {
    using namespace suisen;
    std::variant<int, char> v; Match<int, char>(v).with<int>([](int) {}).otherwise([] {}); sink(Timer::measure([] {}));
    MapZobristHash<int> zh(std::vector<int>{1, 2}); sink(zh);
    std::vector<int> a{1}; sink(a + 3);
    ArrayTrieNodeWithParentLink<26, 'a'> n0, n1(0, 'a'); sink(n0, n1);
}
