// The general Porter-Duff operation, a protected virtual member of the blend base class: reached by deriving from it, as
// the library's own operations do. Built with -DNO_GPD if a tree no longer offers it under this name.
#include "h.h"
#include "gpd.h"
#ifdef NO_GPD
bool gpd_available = false;
color_base* gpd(rgb_deepcolor*, rgb_deepcolor*, bool, bool, bool, std::function<float(float, float)>) { return nullptr; }
#else
bool gpd_available = true;
struct gpd_access : base_color_blend {
	color_base* run(rgb_deepcolor* s, rgb_deepcolor* d, bool us, bool ud, bool ub, std::function<float(float, float)> f) { return general_porter_duff(s, d, us, ud, ub, f); }
};
color_base* gpd(rgb_deepcolor* s, rgb_deepcolor* d, bool us, bool ud, bool ub, std::function<float(float, float)> f) { gpd_access a; return a.run(s, d, us, ud, ub, f); }
#endif
