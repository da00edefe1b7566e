#include "wit.hpp"
#include "library/datastructure/priority_queue.hpp"
#include "library/datastructure/binary_trie.hpp"
#include "library/datastructure/binary_trie_patricia.hpp"
#include "library/datastructure/bit_vector.hpp"
#include "library/datastructure/cartesian_tree.hpp"
#include "library/datastructure/compressed_wavelet_matrix.hpp"
#include "library/datastructure/convex_hull_trick.hpp"
#include "library/datastructure/deque_aggregation.hpp"
#include "library/datastructure/double_ended_priority_queue.hpp"
#include "library/datastructure/heap/binary_heap.hpp"
#include "library/datastructure/heap/interval_heap.hpp"
#include "library/datastructure/monotonic_convex_hull_trick.hpp"
#include "library/datastructure/queue_aggregation.hpp"
#include "library/datastructure/sliding_window_minimum.hpp"
#include "library/datastructure/slope_trick.hpp"
#include "library/datastructure/wavelet_matrix.hpp"
#include "library/datastructure/permutation_tree.hpp"
#include "library/datastructure/ZDD.hpp"
#include "library/datastructure/persistent_array.hpp"
#include "library/datastructure/union_find/merge_history_forest.hpp"
#include "library/datastructure/union_find/persistent_union_find.hpp"
#include "library/datastructure/union_find/undo_union_find_component_sum.hpp"
#include "library/datastructure/union_find/union_find_lazy.hpp"
#include "library/datastructure/union_find/weighted_union_find.hpp"
#include "library/datastructure/util/dynamic_bitset.hpp"
#include "library/datastructure/util/priority_sum.hpp"
#include "library/datastructure/util/range_set.hpp"
#include "library/datastructure/util/static_bitset.hpp"
using namespace suisen; using namespace wit;
void merge_cref(S&, const S&); void merge_val(S&, S); void undo1(S&); void map_ref(F, S&, int);
S app(S, K); F fin(S, S); 
template class suisen::BinaryTrie<int>; template class suisen::BinaryTrie<long long, 40>;
template struct suisen::BinaryTriePatricia<int, 30>; template struct suisen::BinaryTriePatricia<long long, 60, long long>;
template struct suisen::CartesianTreeBuilder<std::less<>>; template struct suisen::CartesianTreeBuilder<std::greater<>>;
template struct suisen::CompressedWaveletMatrix<long long>;
template class suisen::ConvexHullTrick<long long, true>; template class suisen::ConvexHullTrick<long long, false>;
template struct suisen::DequeAggregation<S, op, e>;
template struct suisen::DoubleEndedPriorityQueue<S>;
template struct suisen::IntervalHeap<S>;
template struct suisen::MonotonicCHT<long long, true, suisen::inc_query_tag>;
template struct suisen::MonotonicCHT<long long, false, suisen::dec_query_tag>;
template struct suisen::MonotonicCHT<long long, true, suisen::non_monotonic_query_tag>;
template struct suisen::QueueAggregation<K, S, e, app, F, fin>;
template class suisen::sliding_window_minimum<long long>;
template class suisen::SlopeTrick<long long>;
template struct suisen::WaveletMatrix<int>; template struct suisen::WaveletMatrix<unsigned long long, 60>;
template struct suisen::UndoUnionFindComponentSum<S, merge_cref, undo1>;
template struct suisen::UnionFindLazy<S, merge_val, inv, F, map_ref, composition, id, finv>;
template struct suisen::WeightedUnionFind<S, op, e, inv>; template struct suisen::WeightedUnionFind<long long>;
template struct suisen::RangeSet<long long, true>;
template struct suisen::static_bitset<100>; 
template <class It> void iter(It it, const S&) {
    S s = *it; sink(s); ++it; --it; it++; it--; it += 2; it -= 2;
    sink(it + 1, it - 1, it - it, it == it, it != it, it < it, it > it, it <= it, it >= it);
}
void use() {
    auto gb = [](int) -> bool { return any<bool>(); }; auto gi = [](int) -> int { return any<int>(); }; auto gl = [](int) { return any<long long>(); };
    BitVector bv(5, gb); bv.build(gb);
    std::vector<int> vi; std::vector<long long> vl; std::vector<S> vs; std::vector<K> vk;
    MinCartesianTreeBuilder m1(vi), m2 = MinCartesianTreeBuilder(vl); sink(m1.build(), MinCartesianTreeBuilder::build(vi), MaxCartesianTreeBuilder::build(vl));
    WaveletMatrix<int> w1(5, gi), w2(vi); w1.build(gi); CompressedWaveletMatrix<long long> w3(5, gl), w4(vl);
    DequeAggregation<S, op, e> d(vs), d2(vs.begin(), vs.end()); iter(d.begin(), S()); iter(d.end(), S());
    QueueAggregation<K, S, e, app, F, fin> q(vk), q2(vk.begin(), vk.end()); { auto it = q.begin(); K k = *it; ++it; sink(it + 1, q.end() - it, k); }
    DoubleEndedPriorityQueue<S> dp(vs), dp2(vs.begin(), vs.end()); dp.emplace(S()); std::less<S> ls; DoubleEndedPriorityQueue<S> dp3(vs.begin(), vs.end(), ls), dp4(vs, ls);
    MinBinaryHeap<S> h1(vs), h2(vs.begin(), vs.end()), h3(vs, ls), h4(vs.begin(), vs.end(), ls); h1.emplace(S()); MaxBinaryHeap<S> h5; h5.emplace(S());
    IntervalHeap<S> ih; ih.emplace(S());
    sliding_window_minimum<long long> sw(5, gl);
    MergeHistoryForest mhf(5); mhf.same(0, 1, 2, [](int, int) { return any<int>(); });
    sink(ZDD::card<long long>(ZDD()), ZDD::card<double>(ZDD()));
}
template <class H> void heap() {
    std::vector<S> v; typename H::compare_type c{}; H a, b(c), d(v.begin(), v.end()), f(v.begin(), v.end(), c), g(v), h(v, c);
    const H& k = a; a.reserve(3); sink(k.empty(), k.size(), k.top(), k.data(), a.data()); a.clear(); a.shrink_to_fit(); a.push(S()); a.emplace(S()); sink(a.pop()); a.construct_heap(); k.check_heap_property();
}
template <class P> void psum() { P a, b(3); const P& k = a; sink(k.get_sum(), k.get_k(), k.size()); a.insert(3); a.erase(3); a.set_k(2); a.incr_k(); a.decr_k(); }
void use_heaps() { heap<suisen::MinBinaryHeap<S>>(); heap<suisen::MaxBinaryHeap<S>>(); suisen::MinPriorityQueue<S> a; suisen::MaxPriorityQueue<S> b; a.push(S()); b.push(S()); psum<suisen::MaximumPrioritySum<long long>>(); psum<suisen::MinimumPrioritySum<long long>>(); }
