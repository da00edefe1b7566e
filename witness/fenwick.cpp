#include "wit.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/compressed_fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_2d_sparse.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_prefix.hpp"
#include "library/datastructure/fenwick_tree/fenwick_tree_set.hpp"
#include "library/datastructure/fenwick_tree/offline_rectangle_add_point_get.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/fenwick_tree/static_rectangle_add_rectangle_sum.hpp"
using namespace suisen; using namespace wit;
template struct suisen::CompressedFenwickTree<S, op, e, inv, 1>; template struct suisen::CompressedFenwickTree<S, op, e, inv, 2>; template struct suisen::CompressedFenwickTree<S, op, e, inv, 3, long long>;
template struct suisen::CompressedFenwickTreePrefix<S, op, e, 1>; template struct suisen::CompressedFenwickTreePrefix<S, op, e, 2>; template struct suisen::CompressedFenwickTreePrefix<S, op, e, 3, long long>;
template struct suisen::FenwickTree<long long>;
template class suisen::FenwickTree2D<long long>; template class suisen::FenwickTree2DSparse<long long>;
template struct suisen::FenwickTreePrefix<S, op, e>;
template struct suisen::OfflineRectangleAddPointGet<long long>; template struct suisen::OfflineRectangleAddPointGet<long long, long long>;
template struct suisen::PersistentFenwickTree<long long>;

void use() {
    FenwickTree<long long> a(5); a.sum(0, 3); a[0] += 1; MapFenwickTree<long long, long long> b(5); b.add(3, 1); MapFenwickTree<long long, long long, true> b2(5);
    std::vector<int> v; fenwick_tree_set s(5, v), s2(v), s3(5); auto it = s.begin(); sink(*it, it + 1, 1 + it, it - 1, it - it, it[2], it == it, it < it, s.end() - it, it != it, it > it, it <= it, it >= it); ++it; --it; it++; it--; it += 1; it -= 1;
    sink(static_rectangle_add_rectangle_sum<long long>({}, {}));
}
template <class I, class Fw> void fw() {
    Fw a(5), z; const Fw& k = a; I i{}; sink(k.size(), k.sum(i, i), k(i, i), a.get_internal_container()); a.add(i, 1);
    auto p = a[i]; long long x = p; ++p; --p; p += 1; p -= 1; p *= 2; p /= 2; p %= 2; p = 3; sink(x);
    static_assert(std::is_same_v<std::decay_t<decltype(k.size())>, I>);
}
void use_fw() { fw<int, FenwickTree<long long>>(); fw<long long, MapFenwickTree<long long, long long>>(); fw<long long, MapFenwickTree<long long, long long, true>>(); std::vector<long long> v; FenwickTree<long long> a(v), b(std::move(v)); }
