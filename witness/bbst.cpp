#include "wit.hpp"
#include "library/datastructure/bbst/implicit_treap.hpp"
#include "library/datastructure/bbst/implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
#include "library/datastructure/bbst/persistent_red_black_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_lazy_segment_tree.hpp"
#include "library/datastructure/bbst/persistent_red_black_reversible_lazy_segment_tree.hpp"
using namespace suisen; using namespace wit;
using TA = DynamicArray<S>;
using TS = DynamicSegmentTree<S, op, e>;
using RA = ReversibleDynamicArray<S>;
using RS = ReversibleDynamicSegmentTree<S, op, e, toggle>;
using RD = ReversibleDynamicDualSegmentTree<S, F, mapping, composition, id>;
using RL = ReversibleDynamicLazySegmentTree<S, op, e, toggle, F, mapping_len, composition, id>;
template class suisen::DynamicArray<S>;
template class suisen::DynamicSegmentTree<S, op, e>;
template class suisen::ReversibleDynamicArray<S>;
template class suisen::ReversibleDynamicSegmentTree<S, op, e, toggle>;
template class suisen::ReversibleDynamicDualSegmentTree<S, F, mapping, composition, id>;
template class suisen::ReversibleDynamicLazySegmentTree<S, op, e, toggle, F, mapping_len, composition, id>;
template <class It> void iter(It it) {
    S s = *it; sink(s, it[2]); ++it; --it; it++; it--; it += 2; it -= 2;
    sink(it + 1, 1 + it, it - 1, it - it, it == it, it != it, it < it, it > it, it <= it, it >= it);
}
template <class A> void common(A& a) {
    const A& ca = a; std::vector<S> v; A b(v); A c(3); A d(3, S());
    auto f = [](auto&&... x) -> bool { return any<bool>(); };
    sink(ca.size(), ca.empty(), ca[0], ca.front(), ca.back(), ca.dump(), a.erase(0), a.pop_front(), a.pop_back());
    a.insert(0, S()); a.push_front(S()); a.push_back(S()); a.merge(a.split(3)); a.rotate(1); a.rotate(0, 1, 2);
    a.clear(); a.free(); A::reserve(10);
    iter(a.begin()); iter(a.end()); iter(a.rbegin()); iter(a.rend()); iter(ca.begin()); iter(ca.end()); iter(ca.rbegin()); iter(ca.rend());
    iter(ca.cbegin()); iter(ca.cend()); iter(ca.crbegin()); iter(ca.crend());
    sink(ca.binary_search(f), ca.lower_bound(S()), ca.upper_bound(S()));
    sink(a.binary_search(f), a.lower_bound(S()), a.upper_bound(S()));
}
template <class A> void bypos(A& a) {
    a.insert(a.begin(), S()); sink(a.erase(a.begin())); a.merge(a.split(a.begin()));
}
template <class A> void bysearch(A& a) {
    auto f = [](S x) -> bool { return pred(x); };
    sink(a.insert_binary_search(S(), f), a.insert_lower_bound(S()), a.insert_upper_bound(S()));
    sink(a.erase_binary_search(f, f), a.erase_lower_bound(S()), a.erase_upper_bound(S()), a.erase_if_exists(S()));
    a.merge(a.split_binary_search(f)); a.merge(a.split_lower_bound(S())); a.merge(a.split_upper_bound(S()));
    a.reverse(0, 3); a.reverse_all();
}
void use() {
    TA a; common(a); bypos(a); a[0] = a.front() = a.back();
    TS b; common(b); bypos(b); b.set(0, S()); b.apply(0, [](S s) { return s; });
    sink(b.prod_all(), b.prod(0, 1), b.max_right(0, [](S x) { return pred(x); }), b.min_left(0, [](S x) { return pred(x); }));
    RA c; common(c); bysearch(c); c[0] = c.front() = c.back();
    RS d; common(d); bysearch(d); d.set(0, S()); d.apply(0, [](S s) { return s; });
    sink(d.prod_all(), d.prod(0, 1), d.max_right(0, [](S x) { return pred(x); }), d.min_left(0, [](S x) { return pred(x); }));
    RD g; common(g); bysearch(g); g[0] = g.front() = g.back(); g.apply(0, 3, F()); g.apply_all(F());
    RL h; common(h); bysearch(h); h.set(0, S()); h.apply(0, [](S s) { return s; }); h.apply(0, 3, F()); h.apply_all(F());
    sink(h.prod_all(), h.prod(0, 1), h.max_right(0, [](S x) { return pred(x); }), h.min_left(0, [](S x) { return pred(x); }));
}
// red-black trees: mutable and persistent
using B0 = suisen::bbst::RedBlackTreeNode<S>;
using B1 = suisen::bbst::segtree::RedBlackTreeNode<S, op, e>;
using B2 = suisen::bbst::lazy_segtree::RedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
using B3 = suisen::bbst::reversible_lazy_segtree::RedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
using P0 = suisen::bbst::PersistentRedBlackTreeNode<S>;
using P1 = suisen::bbst::segtree::PersistentRedBlackTreeNode<S, op, e>;
using P2 = suisen::bbst::lazy_segtree::PersistentRedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
using P3 = suisen::bbst::reversible_lazy_segtree::PersistentRedBlackTreeNode<S, op, e, F, mapping_len, composition, id>;
template <class N> void rb() {
    auto t = N::empty_tree(); N::init_pool(5); N::node_num(); N::size(t); N::empty(t); std::vector<S> v; t = N::build(v); 
    t = N::merge(t, t); auto [l, r] = N::split(t, 1); auto [x, y, z] = N::split_range(t, 0, 1);
    t = N::insert(t, 0, S()); t = N::push_front(t, S()); t = N::push_back(t, S());
    auto e1 = N::erase(t, 0); auto e2 = N::pop_front(t); auto e3 = N::pop_back(t);
    t = N::update_value(t, 0, [](S s) { return s; }); auto g = N::get(t, 0);
    N::dump(t, std::back_inserter(v)); N::to_string(t); N::check_rbtree_properties(t);
    t = N::set(t, 0, S()); N n;
    sink(l, r, x, y, z, e1, e2, e3, g);
}
template <class N> void rbfree() { auto t = N::empty_tree(); N::free(t); }
template <class N> void rbp() {
    auto t = N::empty_tree(); auto s = N::swap(t, 0, 1, t, 0, 1); t = N::cut(t, 0, 1); t = N::replace(t, t, 0, 1); t = N::replace(t, t, 0); t = N::rebuild(t); sink(s);
}
template <class N> void rbseg() { auto t = N::empty_tree(); auto p = N::prod(t, 0, 1); sink(p, N::prod_all(t)); }
template <class N> void rblazy() { auto t = N::empty_tree(); t = N::apply(t, 0, 1, F()); t = N::apply_all(t, F()); }
template <class N> void rbrev() { auto t = N::empty_tree(); t = N::reverse(t, 0, 1); t = N::reverse_all(t); }
void userb() {
    rb<B0>(); rb<B1>(); rb<B2>(); rb<B3>(); rb<P0>(); rb<P1>(); rb<P2>(); rb<P3>();
    rbfree<B0>(); rbfree<B1>(); rbfree<B2>(); rbfree<B3>();
    rbp<P0>(); rbp<P1>(); rbp<P2>(); rbp<P3>();
    rbseg<B1>(); rbseg<B2>(); rbseg<B3>(); rbseg<P1>(); rbseg<P2>(); rbseg<P3>();
    rblazy<B2>(); rblazy<B3>(); rblazy<P2>(); rblazy<P3>(); rbrev<B3>(); rbrev<P3>();
}
