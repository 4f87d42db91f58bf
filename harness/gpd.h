#pragma once
#include "h.h"
extern bool gpd_available;
color_base* gpd(rgb_deepcolor* s, rgb_deepcolor* d, bool us, bool ud, bool ub, std::function<float(float, float)> f);
