#include "core/base.h"
#include "utils/node.h"
template class Planner::Node<int>;
