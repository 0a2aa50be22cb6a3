#include "core/base.h"
#include "utils/grid.cpp"
#include "state_validator/gvd.cpp"
#include "state_validator/occupancy_map.cpp"
#include "state_validator/obstacle.cpp"
#include "state_validator/obstacle_list_occupancy_map.cpp"
