#include "wit.hpp"
#include "library/tree/link_cut_tree.hpp"
using namespace suisen; using namespace wit;
template <class L> void lct() {
    L::init_pool(3); auto u = L::make_node(S()); auto ns = L::make_nodes(std::vector<S>{}); sink(L::expose(u)); L::link(u, u); L::cut(u); L::cut(u, u); L::evert(u);
    sink(ns, L::is_connected(u, u), L::lca(u, u), L::get(u), L::path_from_root(u), L::path(u, u)); L::set(u, S()); L::update_value(u, [](S s) { return s; });
}
void use() { lct<LinkCutTree<S>>(); }
