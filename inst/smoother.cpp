#include "core/base.h"
#include "algo/smoother.cpp"
