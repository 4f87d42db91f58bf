// Adapters: uniform access to the typed parts of the public API.
#include "h.h"

#define TYPES(X) X(RGBT, rgb_truecolor, rgb_true) X(RGBD, rgb_deepcolor, rgb_deep) X(GREYT, grey_truecolor, grey_true) X(GREYD, grey_deepcolor, grey_deep) \
	X(CMYK_, cmyk, cmyk) X(HSI_, hsi, hsi) X(HSV_, hsv, hsv) X(HSL_, hsl, hsl) X(HCY_, hcy, hcy) X(XYZ_, xyz, xyz) X(XYY_, xyy, xyy) X(LUV_, cieluv, cieluv) \
	X(LAB_, lab, lab) X(LCHAB, lch_ab, lch_ab) X(LCHUV, lch_uv, lch_uv)

// (type, class, index, accessor)
#define ACCESSORS(A) A(RGBT, rgb_truecolor, 0, red) A(RGBT, rgb_truecolor, 1, green) A(RGBT, rgb_truecolor, 2, blue) \
	A(RGBD, rgb_deepcolor, 0, red) A(RGBD, rgb_deepcolor, 1, green) A(RGBD, rgb_deepcolor, 2, blue) A(GREYT, grey_truecolor, 0, grey) A(GREYD, grey_deepcolor, 0, grey) \
	A(CMYK_, cmyk, 0, cyan) A(CMYK_, cmyk, 1, magenta) A(CMYK_, cmyk, 2, yellow) A(CMYK_, cmyk, 3, black) A(HSI_, hsi, 0, hue) A(HSI_, hsi, 1, saturation) A(HSI_, hsi, 2, intensity) \
	A(HSV_, hsv, 0, hue) A(HSV_, hsv, 1, saturation) A(HSV_, hsv, 2, value) A(HSL_, hsl, 0, hue) A(HSL_, hsl, 1, saturation) A(HSL_, hsl, 2, lightness) \
	A(HCY_, hcy, 0, hue) A(HCY_, hcy, 1, chroma) A(HCY_, hcy, 2, luma) A(XYZ_, xyz, 0, x) A(XYZ_, xyz, 1, y) A(XYZ_, xyz, 2, z) A(XYY_, xyy, 0, x) A(XYY_, xyy, 1, y) A(XYY_, xyy, 2, Y) \
	A(LUV_, cieluv, 0, L) A(LUV_, cieluv, 1, u) A(LUV_, cieluv, 2, v) A(LAB_, lab, 0, luminance) A(LAB_, lab, 1, a) A(LAB_, lab, 2, b) \
	A(LCHAB, lch_ab, 0, luminance) A(LCHAB, lch_ab, 1, chroma) A(LCHAB, lch_ab, 2, hue) A(LCHUV, lch_uv, 0, luminance) A(LCHUV, lch_uv, 1, chroma) A(LCHUV, lch_uv, 2, hue)

void set_named(color_base* c, int i, float v) {
	switch (type_of(c) * 4 + i) {
#define A(E, C, I, F) case E * 4 + I: static_cast<C*>(c)->F(v); break;
	ACCESSORS(A)
#undef A
	default: abort();
	}
}
float get_named(color_base* c, int i) {
	switch (type_of(c) * 4 + i) {
#define A(E, C, I, F) case E * 4 + I: return static_cast<C*>(c)->F();
	ACCESSORS(A)
#undef A
	default: abort();
	}
}
void assign_typed(color_base* dst, color_base* src) {
	switch (type_of(dst)) {
#define X(E, C, N) case E: *static_cast<C*>(dst) = *static_cast<C*>(src); break;
	TYPES(X)
#undef X
	default: abort();
	}
}
color_base* from_base(T t, const color_base& src) {
	switch (t) {
#define X(E, C, N) case E: return new C(src);
	TYPES(X)
#undef X
	default: abort();
	}
}
color_base* typed_add(color_base* a, color_base* b, float w1, float w2, bool al) {
	switch (type_of(a)) {
#define X(E, C, N) case E: return color_calculation::add(static_cast<C*>(a), static_cast<C*>(b), w1, w2, al);
	TYPES(X)
#undef X
	default: abort();
	}
}
color_base* typed_mix(color_base* a, color_base* b, float w, bool al) {
	switch (type_of(a)) {
#define X(E, C, N) case E: return color_calculation::mix(static_cast<C*>(a), static_cast<C*>(b), w, al);
	TYPES(X)
#undef X
	default: abort();
	}
}
color_base* typed_subtract(color_base* a, color_base* b, float w, bool al) {
	switch (type_of(a)) {
#define X(E, C, N) case E: return color_calculation::subtract(static_cast<C*>(a), static_cast<C*>(b), w, al);
	TYPES(X)
#undef X
	default: abort();
	}
}
template <class C> static std::vector<C*> down(const std::vector<color_base*>& v) { std::vector<C*> r; for (auto p : v) r.push_back(static_cast<C*>(p)); return r; }
color_base* average(T t, const std::vector<color_base*>& v, bool al) {
	switch (t) {
#define X(E, C, N) case E: return color_calculation::average_##N(down<C>(v), al);
	TYPES(X)
#undef X
	default: abort();
	}
}
const std::vector<NamedBlend>& pd_ops() {
	static const std::vector<NamedBlend> v = {
#define P(N) { #N, [](color_base* s, color_base* d, bool, bool) { return porter_duff::N(s, d); } },
		P(src) P(dest) P(atop) P(dest_atop) P(over) P(dest_over) P(in) P(dest_in) P(out) P(dest_out) P(x_or) P(clear)
#undef P
	};
	return v;
}
const std::vector<NamedBlend>& blend_ops() {
	static const std::vector<NamedBlend> v = {
#define P(N) { #N, [](color_base* s, color_base* d, bool us, bool ud) { return color_blend::N(s, d, us, ud); } },
		P(normal) P(dissolve) P(multiply) P(screen) P(overlay) P(darken) P(lighten) P(color_dodge) P(linear_dodge) P(color_burn) P(linear_burn) P(hard_light) P(soft_light)
		P(vivid_light) P(linear_light) P(pin_light) P(hard_mix) P(difference) P(subtract) P(divide) P(plus_lighter) P(plus_darker) P(exclusion)
#undef P
	};
	return v;
}
const std::vector<NamedBlend>& hcy_blend_ops() {
	static const std::vector<NamedBlend> v = {
#define P(N) { #N, [](color_base* s, color_base* d, bool us, bool ud) { return color_blend::N(s, d, us, ud); } },
		P(hue) P(saturation) P(color) P(luminosity)
#undef P
	};
	return v;
}
const std::vector<NamedAdapt>& adapt_ops() {
	typedef chromatic_adaptation A;
	static const std::vector<NamedAdapt> v = {
		{ "von_kries", [](color_base* c, white_point* w, float, float, float) { return A::von_kries_adaptation(c, w); } },
		{ "bradford", [](color_base* c, white_point* w, float, float, float) { return A::bradford_adaptation(c, w); } },
		{ "bradford_simplified", [](color_base* c, white_point* w, float, float, float) { return A::bradford_adaptation_simplified(c, w); } },
		{ "xyz_scale", [](color_base* c, white_point* w, float, float, float) { return A::xyz_scale_adaptation(c, w); } },
		{ "sharp", [](color_base* c, white_point* w, float, float, float) { return A::sharp_adaptation(c, w); } },
		{ "cmccat97_simplified", [](color_base* c, white_point* w, float, float, float) { return A::cmccat97_adaptation_simplified(c, w); } },
		{ "cmccat97", [](color_base* c, white_point* w, float f, float la, float) { return A::cmccat97_adaptation(c, w, f, la); } },
		{ "cmccat2000_simplified", [](color_base* c, white_point* w, float, float, float) { return A::cmccat2000_adaptation_simplified(c, w); } },
		{ "cmccat2000", [](color_base* c, white_point* w, float f, float la, float lr) { return A::cmccat2000_adaptation(c, w, f, la, lr); } },
		{ "cat02_simplified", [](color_base* c, white_point* w, float, float, float) { return A::cat02_adaptation_simplified(c, w); } },
		{ "cat02", [](color_base* c, white_point* w, float f, float la, float) { return A::cat02_adaptation(c, w, f, la); } },
	};
	return v;
}
