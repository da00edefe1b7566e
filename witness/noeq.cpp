#include "wit.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_dual_segtree.hpp"
#include "library/datastructure/bbst/reversible_implicit_treap_lazy_segtree.hpp"
// operations that cannot be compared
namespace wit::g {
    struct F { F(); F(const F&); F(F&&); F& operator=(const F&); F& operator=(F&&); ~F(); int opaque[7]; };
    F id(); F composition(F, F); S mapping(F, S); S mapping_len(F, S, int);
}
using namespace wit;
template class suisen::ReversibleDynamicDualSegmentTree<S, g::F, g::mapping, g::composition, g::id>;
template class suisen::ReversibleDynamicLazySegmentTree<S, op, e, toggle, g::F, g::mapping_len, g::composition, g::id>;
void use(suisen::ReversibleDynamicDualSegmentTree<S, g::F, g::mapping, g::composition, g::id>& a, suisen::ReversibleDynamicLazySegmentTree<S, op, e, toggle, g::F, g::mapping_len, g::composition, g::id>& b) {
    a.apply(0, 1, g::id()); b.apply(0, 1, g::id()); a.reverse(0, 1); b.reverse(0, 1); (void) a[0]; (void) b.prod(0, 1);
}
