#include "wit.hpp"
#include "library/string/aho_corasick.hpp"
#include "library/string/aho_corasick_array.hpp"
#include "library/string/compare_substring.hpp"
#include "library/string/dynamic_rolling_hash.hpp"
#include "library/string/palindromic_tree.hpp"
#include "library/string/rolling_hash.hpp"
#include "library/string/rolling_hash_field.hpp"
#include "library/string/substring_set.hpp"
#include "library/string/trie_array.hpp"
#include "library/string/trie_map.hpp"
#include "library/string/morris_pratt.hpp"
#include "library/util/coordinate_compressor.hpp"
#include "library/util/cumulative_sum.hpp"
#include "library/util/cumulative_sum_2d.hpp"
#include "library/util/default_vector.hpp"
#include "library/util/iter_util.hpp"
#include "library/util/object_pool.hpp"
#include "library/util/permutation.hpp"
#include "library/util/pointer_32bit.hpp"
#include "library/util/run_length_encoder.hpp"
#include "library/util/step_sum.hpp"
#include "library/util/step_view.hpp"
#include "library/util/subset_iterator.hpp"
#include "library/util/zobrist_hash.hpp"
#include "library/number/modint_2^61m1.hpp"
using namespace wit;
template struct suisen::AhoCorasick<char>; template struct suisen::AhoCorasick<int>;
template struct suisen::AhoCorasickArray<26, 'a'>;
template struct suisen::CompareSubstring<>;
template struct suisen::DynamicRollingHash<1>; template struct suisen::DynamicRollingHash<3>;
template struct suisen::PalindromicTree<char, std::string>; template struct suisen::PalindromicTree<K>;
template struct suisen::PalindromicTreeVec<char, std::string>; template struct suisen::PalindromicTreeVec<int>; template struct suisen::PalindromicTreeArr<char, 26, std::string>;
template struct suisen::RollingHash<1>; template struct suisen::RollingHash<2>;
template struct suisen::RollingHashField<unsigned long long, 2>;
template class suisen::SubstringSet<char>; template class suisen::SubstringSet<int>;
template struct suisen::ArrayTrieNode<26, 'a'>; template struct suisen::ArrayTrie<suisen::ArrayTrieNode<26, 'a'>>;
template struct suisen::MapTrie<suisen::MapTrieNode<int, true>>; template struct suisen::MapTrie<suisen::MapTrieNode<char, false>>;
template class suisen::CoordinateCompressorBuilder<int>; template class suisen::CoordinateCompressorBuilder<K>;
template struct suisen::CumulativeSum<long long>; template struct suisen::CumulativeSum2D<long long>;
template class suisen::default_vector<int>; template class suisen::default_vector<S>;
template struct suisen::ObjectPool<S, false>; template struct suisen::ObjectPool<S, true>;
template struct suisen::PermutationHash<unsigned long long>;
template struct suisen::ptr32<S>;
template class suisen::RunLengthEncoder<std::string>; template class suisen::RunLengthEncoder<std::vector<K>>;
template struct suisen::StepSum<long long>;
template struct suisen::StepView<std::vector<S>>;
template struct suisen::all_subset<int>; template struct suisen::all_subset<unsigned long long>;
template struct suisen::VecZobristHash<>; template struct suisen::ArrZobristHash<10>; template struct suisen::MapZobristHash<K>; template struct suisen::MapZobristHash<int, unsigned>;
void use(suisen::StepView<std::vector<S>> v, suisen::StepIterator<std::vector<S>::iterator> i, suisen::StepIterator<std::vector<S>::iterator> j, suisen::SubstringSet<char> s, std::string t) {
    sink(v[3], v.size(), i + 1, 1 + i, i - 1, i - j, i == j, i != j, i < j, i <= j, i > j, i >= j, *i, i[2]); ++i; --i; i++; i--; i += 1; i -= 1;
    auto a = s.begin(), b = s.end(); sink(a + 1, a - 1, a - b, a == b, a != b, *a, a < b, a <= b, a > b, a >= b, *s.rbegin(), s.rend() == s.rbegin(), s.lower_bound(t), s.upper_bound(t), s.find(t)); ++a; --a; a += 1; a -= 1;
    sink(s.size(), s.contains(t), s.count_lt(t), s.count_leq(t), s.count_gt(t), s.count_geq(t), s.count_range(t, t), s.min_geq(t), s.min_gt(t), s.max_lt(t), s.max_leq(t), s[3], s.kth_element(3));
}
