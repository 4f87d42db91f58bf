// The direct conversions <from>_to_<to>, which are protected static members of the converter.
// If a tree no longer offers them under these names, the harness is built with -DNO_TYPED and says so in its evidence.
#include "h.h"
#ifdef NO_TYPED
bool typed_available = false;
color_base* typed_convert(color_base*, T) { return nullptr; }
#else
bool typed_available = true;
struct typed_access : color_converter {
	static color_base* run(color_base* c, T f, T t) {
		switch (f * NT + t) {
#define ONE(FT, F, FC, TT, TN) case FT * NT + TT: return F##_to_##TN(static_cast<FC*>(c));
#include "typed.inc"
		default: return nullptr;
		}
	}
};
color_base* typed_convert(color_base* c, T t) { return typed_access::run(c, type_of(c), t); }
#endif
