#include "wit.hpp"
#include "library/datastructure/segment_tree/segment_tree.hpp"
#include "library/datastructure/segment_tree/lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/compressed_segment_tree.hpp"
#include "library/datastructure/segment_tree/li_chao_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d.hpp"
#include "library/datastructure/segment_tree/segment_tree_2d_sparse.hpp"
#include "library/datastructure/segment_tree/sortable_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/sparse_segment_tree.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/sparse_table.hpp"
#include "library/range_query/range_set_range_composite.hpp"
using namespace suisen; using namespace wit;
template class suisen::SegmentTree<S, op, e>;
template class suisen::LazySegmentTree<S, op, e, F, mapping, composition, id>;
template class suisen::LazySegmentTree<SB, opb, eb, F, mappingb, composition, id, true>;
template class suisen::DualSegmentTree<S, F, mapping, composition, id>;
template class suisen::CommutativeDualSegmentTree<S, F, mapping, composition, id>;
template class suisen::CompressedSegmentTree<S, op, e, 1>;
template class suisen::CompressedSegmentTree<S, op, e, 2>;
template class suisen::CompressedSegmentTree<S, op, e, 1, long long>;
template class suisen::LiChaoSegmentTree<long long, true>;
template class suisen::LiChaoSegmentTree<long long, false>;
template class suisen::PersistentCommutativeDualSegmentTree<F, composition, id>;
template class suisen::PersistentDualSegmentTree<F, composition, id>;
template class suisen::PersistentLazySegmentTree<S, op, e, F, mapping, composition, id>;
template class suisen::PersistentSegmentTree<S, op, e>;
template class suisen::SegmentTree2D<S, op, e>;
template class suisen::SegmentTree2DSparse<S, op, e>;
template class suisen::SortableSegmentTree<S, op, e, toggle>;
template class suisen::SparseLazySegmentTree<long long, S, op, e, F, mapping_ll, composition, id, init_ll>;
template class suisen::SparseSegmentTree<long long, S, op, e>;
template class suisen::PersistentFenwickTree<long long>;
template class suisen::FenwickTreePrefix<S, op, e>;
template class suisen::PersistentArray<S>;
template class suisen::PersistentArray<S, 1>;
template class suisen::SparseTable<S, op, e>;
template class suisen::RangeSetRangeComposite<S, op, e>;
void use_segtree() {
    SegmentTree<S, op, e> a(5); auto pr = [](S x) -> bool { return pred(x); };
    sink(a.max_right(0, pr), a.min_left(3, pr), a.template max_right<pred>(0), a.template min_left<pred>(3));
    a[0] = S(); S av = a[0]; const auto& ca = a; sink(ca(0, 3), av);
    LazySegmentTree<S, op, e, F, mapping, composition, id> b(5);
    sink(b.max_right(0, pr), b.min_left(3, pr), b.template max_right<pred>(0), b.template min_left<pred>(3)); b[0] = S(); S bv = b[0];
    PersistentLazySegmentTree<S, op, e, F, mapping, composition, id> c(5);
    sink(c.max_right(0, pr), c.min_left(3, pr), c.template max_right<pred>(0), c.template min_left<pred>(3));
    PersistentSegmentTree<S, op, e> d(5);
    sink(d.max_right(0, pr), d.min_left(3, pr), d.template max_right<pred>(0), d.template min_left<pred>(3));
    SparseLazySegmentTree<long long, S, op, e, F, mapping_ll, composition, id, init_ll> g(5); g.apply_fun(3, [](S x) { return x; });
    SparseSegmentTree<long long, S, op, e> h(5); h.apply_fun(3, [](S x) { return x; });
}
