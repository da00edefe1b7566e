#include "wit.hpp"
#include "library/datastructure/dynamic_sequence.hpp"
#include "library/datastructure/range_foldable_dynamic_sequence.hpp"
#include "library/datastructure/lazy_eval_dynamic_sequence.hpp"
#include "library/datastructure/splay_tree_map.hpp"
#include "library/datastructure/splay_tree_set.hpp"
#include "library/datastructure/range_foldable_map.hpp"
#include "library/datastructure/lazy_eval_map.hpp"

#include "library/tree/link_cut_tree_path_foldable.hpp"
#include "library/tree/link_cut_tree_path_foldable_lazy.hpp"
using namespace suisen; using namespace wit;
template struct suisen::DynamicSequence<S>;
template class suisen::RangeFoldableDynamicSequence<S, op, e>;
template class suisen::LazyEvalDynamicSequence<S, op, e, F, mapping, composition, id>;
template class suisen::SplayTreeMap<K, S>;
template class suisen::SplayTreeSet<K>;
template class suisen::RangeFoldableMap<K, S, op, e>;
template class suisen::LazyEvalMap<K, S, op, e, F, mapping, composition, id>;
using L1 = suisen::LinkCutTreePathFoldable<S, op, e, toggle>;
using L2 = suisen::LinkCutTreePathFoldableLazy<S, op, e, F, mapping_len, composition, id, toggle>;
template <class L> void lct() {
    L::init_pool(3); auto u = L::make_node(S()); auto ns = L::make_nodes(std::vector<S>{}); sink(L::expose(u)); L::link(u, u); L::cut(u); L::cut(u, u); L::evert(u);
    sink(ns, L::is_connected(u, u), L::lca(u, u), L::get(u), L::path_from_root(u), L::path(u, u)); L::set(u, S()); L::update_value(u, [](S s) { return s; });
}
template <class L> void lctf() { auto u = L::make_node(S()); sink(L::prod_from_root(u), L::prod(u, u)); }
void use() {
    RangeFoldableDynamicSequence<S, op, e> a; S x = a[0]; a[0] = S();
    LazyEvalDynamicSequence<S, op, e, F, mapping, composition, id> b; S y = b[0]; b[0] = S();
    RangeFoldableMap<K, S, op, e> c; S z = c[K()]; c[K()] = S();
    LazyEvalMap<K, S, op, e, F, mapping, composition, id> d; S w = d[K()]; d[K()] = S();
    lct<L1>(); lct<L2>(); lctf<L1>(); lctf<L2>(); L2::apply_from_root(nullptr, F()); L2::apply(nullptr, nullptr, F());
}

template <class D> void seq() {
    D a; const D& k = a; a.insert(0, S()); a.push_front(S()); a.push_back(S()); a.erase(0); a.pop_back(); a.pop_front(); sink(k.size()); a.reverse(0, 1); a.reverse_all();
    D b = a.split(1); a.concat(std::move(b)); D c; a.concat_left(std::move(c)); a += std::move(b); b = std::move(a);
}
template <class D> void seqf() { D a; a.swap(a); sink(a(0, 1), a.prod(0, 1), a.prod_all()); S x = a[0]; a[0] = S(); sink(x); }
void use_seq() {
    using A = DynamicSequence<S>; using B = RangeFoldableDynamicSequence<S, op, e>; using C = LazyEvalDynamicSequence<S, op, e, F, mapping, composition, id>;
    seq<A>(); seq<B>(); seq<C>(); seqf<B>(); seqf<C>(); C c; c.apply(0, 1, F()); c.apply_all(F());
    A a; const A& k = a; sink(a[0], k[0], a.front(), k.front(), a.back(), k.back());
}
