#include "core/base.h"
#include "utils/frontier.h"
// Any elements (named by numbers), any strict weak order, any key: the functions are declared only.
using Item = int;
struct Before {
	bool operator()(const Item& a, const Item& b) const;
};
struct HashItem {
	std::size_t operator()(const Item& a) const;
};
struct SameKey {
	bool operator()(const Item& a, const Item& b) const;
};
template class Planner::Frontier<Item, Before, HashItem, SameKey>;
