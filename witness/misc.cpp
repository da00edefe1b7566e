#include "wit.hpp"
#include <atcoder/modint>
#include "library/algorithm/rmq_pm1.hpp"
#include "library/datastructure/union_find/union_find_component_sum.hpp"
#include "library/graph/bfs01.hpp"
#include "library/graph/dijkstra.hpp"
#include "library/graph/csr_graph.hpp"
#include "library/graph/min_cost_flow.hpp"
#include "library/linear_algebra/array_matrix.hpp"
#include "library/linear_algebra/circulant_matrix.hpp"
#include "library/linear_algebra/gaussian_elimination.hpp"
#include "library/linear_algebra/matrix.hpp"
#include "library/linear_algebra/xor_base.hpp"
#include "library/number/factorized_form.hpp"
#include "library/optimization/k_project_selection_problem.hpp"
#include "library/optimization/project_selection_problem.hpp"
#include "library/range_query/range_chmin_chmax_add_range_sum.hpp"
#include "library/range_query/static_range_inversion_number_query.hpp"
#include "library/range_query/static_range_mode_query.hpp"
#include "library/range_query/static_range_xored_mex_query.hpp"
#include "library/tree/contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum.hpp"
#include "library/tree/point_add_range_contour_sum_invertible.hpp"
#include "library/tree/point_get_range_contour_add_invertible.hpp"
#include "library/tree/point_get_range_contour_operate.hpp"
#include "library/tree/point_set_range_contour_sum.hpp"
#include "library/tree/range_contour_sum_invertible.hpp"
#include "library/tree/tree_isomorphism_classification.hpp"
using namespace wit;
using mint = atcoder::modint998244353;
namespace wit { void merge_into(S&, S); struct node { int a; node(); node(int); bool operator<(const node&) const; }; }
template class suisen::RMQpm1<true>; template class suisen::RMQpm1<false>;
template struct suisen::UnionFindComponentSum<S, merge_into>;
template class suisen::MapBFS01<node>;
template class suisen::dijkstra<long long>; template class suisen::dijkstra<int>;
template struct suisen::GraphBuilder<suisen::directed_graph_tag, void>; template struct suisen::GraphBuilder<suisen::undirected_graph_tag, void>;
template struct suisen::GraphBuilder<suisen::directed_graph_tag, long long>; template struct suisen::GraphBuilder<suisen::undirected_graph_tag, int>;
template struct suisen::Graph<int>;
template class suisen::MinCostFlow<int, long long>; template class suisen::MinCostFlow<long long, long long, suisen::MCFPotentialInitializer::DAG>; template class suisen::MinCostFlow<int, int, suisen::MCFPotentialInitializer::DIJKSTRA>;
template struct suisen::ArrayMatrix<mint, 2, 2>;
template struct suisen::CirculantMatrix<mint>;
template struct suisen::GaussianElimination<S, op, toggle, op, toggle>;
template struct suisen::Matrix<mint>;
template struct suisen::XorBase<int>; template struct suisen::XorBase<unsigned long long>;
template struct suisen::PrimePower<int>; template struct suisen::PrimePower<unsigned long long>;
template struct suisen::KProjectSelection<long long>; template struct suisen::ProjectSelection<long long>; template struct suisen::ProjectSelection<int>;
template struct suisen::RangeChMinMaxAddRangeSum<long long>; template struct suisen::RangeChMinMaxAddRangeSum<int>;
template struct suisen::StaticRangeInversionNumberQuery<int>; template struct suisen::StaticRangeInversionNumberQuery<K>;
template struct suisen::StaticRangeModeQuery<int>; template struct suisen::StaticRangeModeQuery<K>;
template struct suisen::RangeXoredMexQuery<int, 20>; template struct suisen::RangeXoredMexQuery<unsigned>;
template struct suisen::ContourSumOnTree<S, op, e>; template struct suisen::ContourSumOnTree<long long>;
template struct suisen::PointAddRangeContourSum<S, op, e>;
template struct suisen::PointAddRangeContourSumOnTree<S, op, e, toggle>;
template struct suisen::PointGetRangeContourAddOnTree<S, F, mapping, composition, id, finv>;
template struct suisen::PointGetRangeContourOperate<S, F, mapping, composition, id>;
template struct suisen::PointSetRangeContourSum<S, op, e>;
template struct suisen::RangeContourSumOnTree<S, op, e, toggle>;
template struct suisen::IDHandlerZobrist<2>; template struct suisen::IDHandlerZobrist<1>;
template struct suisen::RootedTreeClassifier<suisen::IDHandlerNaive>; template struct suisen::RootedTreeClassifier<suisen::IDHandlerZobrist<3>>;
#include "library/linear_algebra/matrix_f2.hpp"
template <class M, class C, class V> void mat(M a, const M& b, C c, const V& x) {
    sink(a + b, a - b, a * b, a / b, a * c, c * a, a / c, c / a, a * x, a == b, a != b); a += b; a -= b; a *= b; a /= b; a *= c; a /= c;
    sink(b.pow(5), b.inv(), b.det());
}
void use(suisen::Matrix<mint> a, suisen::ArrayMatrix<mint, 2, 2> b, suisen::MatrixF2 d, suisen::CirculantMatrix<mint> f, mint c) {
    mat(a, a, c, std::vector<mint>{}); mat(b, b, c, std::array<mint, 2>{});
    sink(d + d, d - d, d * d, d / d, d * true, true * d, d / true, d == d, d != d, d.pow(4), d.inv(), d.det(), d.rank()); d += d; d -= d; d *= d; d /= d; d *= true; d /= true;
    sink(f + f, f - f, f * f, f * std::vector<mint>{}, f * c, c * f, +f, -f);
}
