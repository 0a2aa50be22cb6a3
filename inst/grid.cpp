#include "utils/grid.cpp"
#include "algo/a_star_n2.cpp"
#include "state_validator/occupancy_map.cpp"
namespace Planner { template struct Grid<int>; }
