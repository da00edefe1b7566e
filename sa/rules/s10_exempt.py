# (function, name): reason -- exact, frozen
exempt('suisen::fast_factorize::internal::pollard_rho', 'x', 'the loop condition g == 1 holds on entry, so the first iteration assigns x')
exempt('suisen::fast_factorize::internal::pollard_rho', 'ys', 'assigned in the first iteration of the same loop nest')
exempt('suisen::bbst::reversible_lazy_segtree::RedBlackTreeNode::(ctor)', '_rev', 'raw storage of the node pool; every node handed out is overwritten by a complete value')
exempt('suisen::FenwickTree2DSparse::(ctor)', 'm', 'no member reads this field')
for _f in ('delta', 'max_idx', 'min_idx'): exempt('suisen::PermutationTree::left_strong_intervals()::DoublyLinkedList::(ctor)', _f, 'local struct; both construction sites assign the field in the same iteration before linking the node')
for _f in ('ns', 'ks', 'ls'): exempt('suisen::binom_small_mod::binom_prime_power_mod::(ctor)', _f, 'scratch arrays of one call; each call reads only the prefix it has just written')
exempt('suisen::XorBase::intersection', 's', 'assigned under if constexpr for integers; other vector types are value-initialised by their own default constructor')
exempt('suisen::geometry3d::on_triangle', 'normal', 'read only after the flag set together with its first assignment')
