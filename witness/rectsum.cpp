#include "wit.hpp"
#include "library/datastructure/fenwick_tree/rectangle_add_rectangle_sum.hpp"
template struct suisen::RectangleAddRectangleSum<long long>;
