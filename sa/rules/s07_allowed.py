# (owner, type): count, reason
allow('suisen::ArrayFPSNaive', 'suisen::inv_mods<typenamerec_value_type<T,void>::type>', 1, 'handle of the inverse table')
allow('suisen::CirculantMatrix', 'std::vector<T,std::allocator<T>>(*)(conststd::vector<T,std::allocator<T>>&,conststd::vector<T,std::allocator<T>>&)', 1, 'user-chosen multiplication')
allow('suisen::FPS', 'std::vector<T,std::allocator<T>>(*)(conststd::vector<T,std::allocator<T>>&,conststd::vector<T,std::allocator<T>>&)', 1, 'user-chosen multiplication')
allow('suisen::FPSNaive', 'int', 1, 'user-set degree cap')
allow('suisen::FPSNaive', 'suisen::inv_mods<typenamerec_value_type<T,void>::type>', 1, 'handle of the inverse table')
allow('suisen::PersistentArray::Node', 'suisen::ObjectPool<suisen::PersistentArray::Node,false>', 1, 'node pool')
allow('suisen::PersistentCommutativeDualSegmentTree::Node', 'suisen::ObjectPool<suisen::PersistentCommutativeDualSegmentTree::Node,false>', 1, 'node pool')
allow('suisen::PersistentDualSegmentTree::Node', 'suisen::ObjectPool<suisen::PersistentDualSegmentTree::Node,false>', 1, 'node pool')
allow('suisen::PersistentFenwickTree::Node', 'suisen::ObjectPool<suisen::PersistentFenwickTree::Node,false>', 1, 'node pool')
allow('suisen::PersistentLazySegmentTree::Node', 'suisen::ObjectPool<suisen::PersistentLazySegmentTree::Node,false>', 1, 'node pool')
allow('suisen::PersistentSegmentTree::Node', 'suisen::ObjectPool<suisen::PersistentSegmentTree::Node,false>', 1, 'node pool')
allow('suisen::RollingHash', 'std::array<T,base_num>', 1, 'constant base')
allow('suisen::RollingHash', 'std::array<suisen::pow_mods<T>,base_num>', 1, 'power table, extended on demand')
allow('suisen::RollingHashField', 'bool', 1, 'constant base')
allow('suisen::RollingHashField', 'std::array<T,_Nm>', 1, 'constant base')
allow('suisen::RollingHashField', 'std::array<std::vector<T,std::allocator<T>>,base_num>', 1, 'power table, extended on demand')
allow('suisen::Sieve', 'unsignedint[base_max+internal::sieve::K]', 1, 'prime table; every construction computes the same contents')
allow('suisen::SimpleSieve', 'unsignedchar[siz]', 1, 'prime table; every construction computes the same contents')
allow('suisen::SparseLazySegmentTree', 'std::vector<suisen::SparseLazySegmentTree::Node,std::allocator<suisen::SparseLazySegmentTree::Node>>', 1, 'node pool')
allow('suisen::SparseSegmentTree', 'std::vector<suisen::SparseSegmentTree::Node,std::allocator<suisen::SparseSegmentTree::Node>>', 1, 'node pool')
allow('suisen::VecSparseFPS', 'std::vector<T,std::allocator<T>>(*)(conststd::vector<T,std::allocator<T>>&,conststd::vector<T,std::allocator<T>>&)', 1, 'user-chosen multiplication')
allow('suisen::bbst::internal::RedBlackTreeNodeBase', 'suisen::ObjectPool<T,false>', 1, 'node pool')
allow('suisen::dynamic_modint', 'suisen::internal::modint::barrett_K128', 1, 'user-set run-time modulus')
allow('suisen::factorial', 'std::vector<T,std::allocator<T>>', 2, 'factorial table, extended on demand')
allow('suisen::factorial_large', 'int', 1, 'constant tuning parameter')
allow('suisen::factorial_large', 'std::vector<T,std::allocator<T>>', 1, 'factorial table, extended on demand')
allow('suisen::internal::implicit_treap::Node', 'std::vector<T,std::allocator<T>>', 1, 'node pool')
allow('suisen::internal::implicit_treap::Node', 'std::vector<unsignedint,std::allocator<unsignedint>>', 1, 'free list')
allow('suisen::internal::link_cut_tree::LinkCutTreeBase', 'suisen::ObjectPool<typenameT::node_type,false>', 1, 'node pool')
allow('suisen::internal::nimber', 'suisen::internal::nimber::table_2_8i_mul_2_8j_mul_x_constexpr', 1, 'constant product tables built at compile time')
allow('suisen::internal::nimber', 'suisen::internal::nimber::table_x_mul_y_constexpr', 1, 'constant product tables built at compile time')
allow('suisen::internal::order_prime_mod::mint64', 'unsignedlong', 1, 'modulus of one enclosing call')
allow('suisen::internal::zdd', 'std::unordered_map<std::tuple<unsignedint,unsignedint,unsignedint>,unsignedint,std::hash<std::tuple<unsignedint,unsignedint,unsignedint>>,std::equal_to<std::tuple<unsignedint,unsignedint,unsignedint>>,std::allocator<std::pair<conststd::tuple<unsignedint,unsignedint,unsignedint>,unsignedint>>>', 1, 'hash-consing tables: ids are canonical')
allow('suisen::internal::zdd', 'std::vector<std::array<unsignedint,2>,std::allocator<std::array<unsignedint,2>>>', 1, 'hash-consing tables: ids are canonical')
allow('suisen::internal::zdd', 'std::vector<unsignedint,std::allocator<unsignedint>>', 1, 'hash-consing tables: ids are canonical')
allow('suisen::internal::zdd', 'unsignedint', 2, 'hash-consing tables: ids are canonical')
allow('suisen::inv_mods', 'std::vector<T,std::allocator<T>>', 1, 'inverse table, extended on demand')
allow('suisen::io', 'suisen::io::InputStream<std::basic_istream<char,std::char_traits<char>>&,nullptr>', 1, 'stream')
allow('suisen::io', 'suisen::io::OutputStream<std::basic_ostream<char,std::char_traits<char>>&,nullptr>', 2, 'stream')
allow('suisen::ptr32', 'std::vector<T,std::allocator<T>>', 1, 'node pool')
allow('suisen::ptr32', 'std::vector<suisen::ptr32<T>,std::allocator<suisen::ptr32<T>>>', 1, 'free list')
allow('suisen::static_pow_mods', 'T', 1, 'constant base')
allow('suisen::static_pow_mods', 'std::vector<T,std::allocator<T>>', 1, 'power table, extended on demand')
allow('suisen::fast_factorize::factorize', 'suisen::Sieve<1000000>', 1, 'prime table; every construction computes the same contents')
allow('suisen::internal::implicit_treap::ReversibleRangeOperateNode::push', 'suisen::warning', 1, 'one-time diagnostic')
allow('suisen::internal::implicit_treap::ReversibleRangeOperateRangeProductNode::push', 'suisen::warning', 1, 'one-time diagnostic')
allow('suisen::RelaxedExp::append', 'suisen::inv_mods<T>', 1, 'handle of the inverse table')
allow('suisen::RelaxedLog::append', 'suisen::inv_mods<T>', 1, 'handle of the inverse table')
allow('suisen::RelaxedPow::append', 'suisen::inv_mods<T>', 1, 'handle of the inverse table')
allow('suisen::internal::dynamic_rolling_hash::base', 'unsignedint', 1, 'hash base, drawn once per process')
allow('suisen::BiconnectedComponents::dfs', 'std::vector<int,std::allocator<int>>', 1, 'edge stack of the DFS: at a root every pushed edge has been popped with its component')
# functions whose constant statics are tables for the modulus of the type (one modulus per type and program, as for the factorial table)
MODULUS_TABLES = {'suisen::StirlingNumber1SmallPrimeMod::s1', 'suisen::StirlingNumber2SmallPrimeMod::s2'}
