#include "wit.hpp"
#include "library/datastructure/segment_tree/persistent_commutative_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_dual_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_lazy_segment_tree.hpp"
#include "library/datastructure/segment_tree/persistent_segment_tree.hpp"
#include "library/datastructure/fenwick_tree/persistent_fenwick_tree.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace suisen; using namespace wit;
template struct suisen::PersistentCommutativeDualSegmentTree<F, composition, id>;
template struct suisen::PersistentDualSegmentTree<F, composition, id>;
template struct suisen::PersistentLazySegmentTree<S, op, e, F, mapping, composition, id>;
template struct suisen::PersistentSegmentTree<S, op, e>;
template struct suisen::PersistentFenwickTree<long long>;
template struct suisen::PersistentArray<S>;
using P0 = suisen::bbst::PersistentRedBlackTreeNode<S>;
using P1 = suisen::bbst::segtree::PersistentRedBlackTreeNode<S, op, e>;
using P2 = suisen::bbst::lazy_segtree::PersistentRedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
using P3 = suisen::bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
template <class N> void rb() {
    auto t = N::empty_tree(); N::size(t); N::empty(t); std::vector<S> v; t = N::build(v);
    t = N::merge(t, t); auto [l, r] = N::split(t, 1); auto [x, y, z] = N::split_range(t, 0, 1);
    t = N::insert(t, 0, S()); t = N::push_front(t, S()); t = N::push_back(t, S());
    auto e1 = N::erase(t, 0); auto e2 = N::pop_front(t); auto e3 = N::pop_back(t);
    t = N::update_value(t, 0, [](S s) { return s; }); auto g = N::get(t, 0);
    N::dump(t, std::back_inserter(v)); N::to_string(t); N::check_rbtree_properties(t);
    t = N::set(t, 0, S());
    auto s = N::swap(t, 0, 1, t, 0, 1); t = N::cut(t, 0, 1); t = N::replace(t, t, 0, 1); t = N::replace(t, t, 0); t = N::rebuild(t);
    sink(l, r, x, y, z, e1, e2, e3, g, s);
}
template <class N> void rbseg() { auto t = N::empty_tree(); auto p = N::prod(t, 0, 1); sink(p, N::prod_all(t)); }
template <class N> void rblazy() { auto t = N::empty_tree(); t = N::apply(t, 0, 1, F()); t = N::apply_all(t, F()); }
template <class N> void rbrev() { auto t = N::empty_tree(); t = N::reverse(t, 0, 1); t = N::reverse_all(t); }
void userb() {
    rb<P0>(); rb<P1>(); rb<P2>(); rb<P3>(); rbseg<P1>(); rbseg<P2>(); rbseg<P3>(); rblazy<P2>(); rblazy<P3>(); rbrev<P3>();
    auto pr = [](S x) -> bool { return pred(x); };
    PersistentLazySegmentTree<S, op, e, F, mapping, composition, id> c(5); std::vector<S> o;
    sink(c.max_right(0, pr), c.min_left(3, pr), c.template max_right<pred>(0), c.template min_left<pred>(3), c.apply(0, [](S x) { return x; }), c.set(0, S())); c.dump(std::back_inserter(o));
    PersistentSegmentTree<S, op, e> d(5);
    sink(d.max_right(0, pr), d.min_left(3, pr), d.template max_right<pred>(0), d.template min_left<pred>(3), d.apply(0, [](S x) { return x; }), d.set(0, S())); d.dump(std::back_inserter(o));
}
