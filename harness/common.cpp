#include "ref.h"
#include <algorithm>

const char* const TNAME[NT] = { "rgb_true", "rgb_deep", "grey_true", "grey_deep", "cmyk", "hsi", "hsv", "hsl", "hcy", "xyz", "xyy", "cieluv", "lab", "lch_ab", "lch_uv" };
const color_type TENUM[NT] = { color_type::RGB_TRUE, color_type::RGB_DEEP, color_type::GREY_TRUE, color_type::GREY_DEEP, color_type::CMYK, color_type::HSI, color_type::HSV, color_type::HSL, color_type::HCY, color_type::XYZ, color_type::XYY, color_type::CIELUV, color_type::LAB, color_type::LCH_AB, color_type::LCH_UV };
const char* volatile Ctx::current = "start";

T type_of(const color_base* c) { color_type t = c->get_color_type(); for (int i = 0; i < NT; ++i) if (TENUM[i] == t) return (T)i; return NT; }

const std::vector<Comp>& comps_of(T t) {
	static const Comp one = { 0, 1, false, 1 }, byte = { 0, 255, false, 255 }, hue = { 0, 359, true, 360 }, cie = { 0, 100, false, 1 }, pct = { 0, 100, false, 100 };
	static const std::vector<Comp> r[NT] = {
		{ byte, byte, byte }, { one, one, one }, { byte }, { one }, { one, one, one, one },
		{ hue, one, one }, { hue, one, one }, { hue, one, one }, { hue, one, one },
		{ cie, cie, cie }, { cie, cie, cie },
		{ pct, { -100, 100, false, 100 }, { -100, 100, false, 100 } }, { pct, { -128, 128, false, 100 }, { -128, 128, false, 100 } },
		{ pct, pct, hue }, { pct, pct, hue } };
	return r[t];
}

std::string sfmt(const char* fmt, ...) { char b[2048]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); return b; }
static std::string vsf(const char* fmt, va_list a) { char b[4096]; vsnprintf(b, sizeof b, fmt, a); return b; }
std::string show(const V& v) { std::string s = "("; for (size_t i = 0; i < v.size(); ++i) s += sfmt(i ? ", %.9g" : "%.9g", v[i]); return s + ")"; }
std::string show(color_base* c) {
	if (!c) return "null";
	T t = type_of(c);
	return std::string(t == NT ? "undefined" : TNAME[t]) + show(comps(c)) + sfmt(" a=%.9g", (double)c->alpha());
}
void Ctx::tick(const char* site) { ++evals; ++caseno; current = site; extern void vh_watchdog_kick(); vh_watchdog_kick(); }
void Ctx::sample(const char* fmt, ...) {
	// a thinning sample: keeps at most 24, spread over the run
	if (samples.size() >= 24 && (caseno & 1023)) return;
	va_list a; va_start(a, fmt); std::string s = vsf(fmt, a); va_end(a);
	if (samples.size() < 24) samples.push_back(s); else samples[Rng::mix(caseno) % 24] = s;
}
static void record(std::map<std::string, Viol>& m, const std::string& site, const std::string& msg, Ctx& c) {
	auto& v = m[site];
	if (!v.count++) { v.site = site; v.msg = msg; v.chunk = c.chunk; v.caseno = c.caseno; }
}
void Ctx::fail(const std::string& site, const char* fmt, ...) { va_list a; va_start(a, fmt); record(viols, site, vsf(fmt, a), *this); va_end(a); }
void Ctx::knownf(const std::string& id, const char* fmt, ...) { va_list a; va_start(a, fmt); record(known, id, vsf(fmt, a), *this); va_end(a); }

template <class F> static Outcome classify(F f) {
	Outcome o;
	try { f(); }
	catch (std::invalid_argument* e) { o.k = Outcome::INVALID; o.what = e->what(); delete e; }
	catch (std::out_of_range* e) { o.k = Outcome::RANGE; o.what = e->what(); delete e; }
	catch (std::exception* e) { o.k = Outcome::OTHERSTD; o.what = e->what(); delete e; }
	catch (const std::invalid_argument& e) { o.k = Outcome::INVALID; o.what = e.what(); }
	catch (const std::out_of_range& e) { o.k = Outcome::RANGE; o.what = e.what(); }
	catch (const std::exception& e) { o.k = Outcome::OTHERSTD; o.what = e.what(); }
	catch (...) { o.k = Outcome::FOREIGN; o.what = "not a standard exception"; }
	return o;
}
Outcome attempt(const std::function<void()>& f) { return classify(f); }
void guarded(Ctx& c, const std::string& site, const std::function<std::string()>& describe, const std::function<void()>& f) {
	Outcome o = classify(f);
	if (o.threw()) c.fail(site, "unexpected exception '%s' for %s", o.what.c_str(), describe().c_str());
}

V comps(const color_base* c) { V r; for (float f : c->get_component_vector()) r.push_back(f); return r; }
color_base* make(T t, const V& v, double alpha, rgb_color_space_definition* s) {
	float a = (float)alpha, x = v.size() > 0 ? (float)v[0] : 0, y = v.size() > 1 ? (float)v[1] : 0, z = v.size() > 2 ? (float)v[2] : 0;
	switch (t) {
	case RGBT: return new rgb_truecolor(x, y, z, a, s);
	case RGBD: return new rgb_deepcolor(x, y, z, a, s);
	case GREYT: return new grey_truecolor(x, a, s);
	case GREYD: return new grey_deepcolor(x, a, s);
	case CMYK_: return new cmyk(x, y, z, (float)v[3], a, s);
	case HSI_: return new hsi(x, y, z, a, s);
	case HSV_: return new hsv(x, y, z, a, s);
	case HSL_: return new hsl(x, y, z, a, s);
	case HCY_: return new hcy(x, y, z, a, s);
	case XYZ_: return new xyz(x, y, z, a, s);
	case XYY_: return new xyy(x, y, z, a, s);
	case LUV_: return new cieluv(x, y, z, a, s);
	case LAB_: return new lab(x, y, z, a, s);
	case LCHAB: return new lch_ab(x, y, z, a, s);
	case LCHUV: return new lch_uv(x, y, z, a, s);
	default: return nullptr;
	}
}
color_base* generic_convert(color_base* c, T t) { return color_converter::convertTo(c, TENUM[t]); }
color_base* to_x(color_base* c, T t) {
	switch (t) {
	case RGBT: return color_converter::to_rgb_true(c);
	case RGBD: return color_converter::to_rgb_deep(c);
	case GREYT: return color_converter::to_grey_true(c);
	case GREYD: return color_converter::to_grey_deep(c);
	case CMYK_: return color_converter::to_cmyk(c);
	case HSI_: return color_converter::to_hsi(c);
	case HSV_: return color_converter::to_hsv(c);
	case HSL_: return color_converter::to_hsl(c);
	case HCY_: return color_converter::to_hcy(c);
	case XYZ_: return color_converter::to_xyz(c);
	case XYY_: return color_converter::to_xyy(c);
	case LUV_: return color_converter::to_cieluv(c);
	case LAB_: return color_converter::to_lab(c);
	case LCHAB: return color_converter::to_lch_ab(c);
	case LCHUV: return color_converter::to_lch_uv(c);
	default: return nullptr;
	}
}
color_base* clone(color_base* c) {
	switch (type_of(c)) {
	case RGBT: return new rgb_truecolor(*static_cast<rgb_truecolor*>(c));
	case RGBD: return new rgb_deepcolor(*static_cast<rgb_deepcolor*>(c));
	case GREYT: return new grey_truecolor(*static_cast<grey_truecolor*>(c));
	case GREYD: return new grey_deepcolor(*static_cast<grey_deepcolor*>(c));
	case CMYK_: return new cmyk(*static_cast<cmyk*>(c));
	case HSI_: return new hsi(*static_cast<hsi*>(c));
	case HSV_: return new hsv(*static_cast<hsv*>(c));
	case HSL_: return new hsl(*static_cast<hsl*>(c));
	case HCY_: return new hcy(*static_cast<hcy*>(c));
	case XYZ_: return new xyz(*static_cast<xyz*>(c));
	case XYY_: return new xyy(*static_cast<xyy*>(c));
	case LUV_: return new cieluv(*static_cast<cieluv*>(c));
	case LAB_: return new lab(*static_cast<lab*>(c));
	case LCHAB: return new lch_ab(*static_cast<lch_ab*>(c));
	case LCHUV: return new lch_uv(*static_cast<lch_uv*>(c));
	default: return nullptr;
	}
}

// ---- RGB spaces ---------------------------------------------------------------------------------------------------
struct PD { const char* name; double p[6]; const char* white; Gam g; rgb_color_space_definition* (rgb_color_space_definition_presets::*fn)(); };
static const WP& wp_named(const std::string& n) { for (auto& w : wps()) if (n == w.name) return w; abort(); }
static double fl(double v) { return (double)(float)v; }
static RS* make_ref(const double* p, const WP& w, Gam g) {
	RS* r = new RS; r->rx = fl(p[0]); r->ry = fl(p[1]); r->gx = fl(p[2]); r->gy = fl(p[3]); r->bx = fl(p[4]); r->by = fl(p[5]);
	r->W[0] = fl(w.X); r->W[1] = fl(w.Y); r->W[2] = fl(w.Z); r->wx = fl(w.x); r->wy = fl(w.y); r->g = g; r->derive(); return r;
}
const std::vector<Space>& presets() {
	typedef rgb_color_space_definition_presets P;
	static const PD d[] = {
		{ "sRGB", { .64, .33, .30, .60, .15, .06 }, "D65_2Degree", GASRGB, &P::sRGB },
		{ "adobeRGB", { .64, .33, .21, .71, .15, .06 }, "D65_2Degree", GAADOBE, &P::adobeRGB },
		{ "pal_secam", { .64, .33, .29, .60, .15, .06 }, "D65_2Degree", GA28, &P::pal_secam },
		{ "americaNTSC", { .63, .34, .31, .595, .155, .07 }, "D65_2Degree", GA22, &P::americaNTSC },
		{ "oldNTSC", { .67, .33, .21, .71, .14, .08 }, "C_2Degree", GA22, &P::oldNTSC },
		{ "appleRGB", { .625, .34, .28, .595, .155, .07 }, "D65_2Degree", GA18, &P::appleRGB },
		{ "dci_p3", { .68, .32, .265, .69, .15, .06 }, "D65_2Degree", GA26, &P::dci_p3 },
		{ "uhdtv", { .708, .292, .170, .797, .131, .046 }, "D65_2Degree", GAUHDTV, &P::uhdtv },
		{ "adobeWideGammutRGB", { .735, .265, .115, .826, .157, .018 }, "D50_2Degree", GAADOBE, &P::adobeWideGammutRGB },
		{ "rommRGB", { .7347, .2653, .1596, .8404, .0366, .0001 }, "D50_2Degree", GAROMM, &P::rommRGB },
		{ "bestRGB", { .7347, .2653, .2150, .7750, .1300, .0350 }, "D50_2Degree", GA22, &P::bestRGB },
		{ "betaRGB", { .6888, .3112, .1986, .7551, .1265, .0352 }, "D50_2Degree", GA22, &P::betaRGB },
		{ "bruceRGB", { .64, .33, .28, .65, .15, .06 }, "D65_2Degree", GA22, &P::bruceRGB },
		{ "colorMatchRGB", { .63, .34, .295, .605, .15, .075 }, "D50_2Degree", GA18, &P::colorMatchRGB },
		{ "donRGB4", { .696, .300, .215, .765, .130, .035 }, "D50_2Degree", GA22, &P::donRGB4 },
		{ "ektaSpacePS5", { .695, .305, .260, .700, .110, .005 }, "D50_2Degree", GA22, &P::ektaSpacePS5 },
		{ "ProPhotoRGB", { .7347, .2653, .1596, .8404, .0366, .0001 }, "D50_2Degree", GA18, &P::ProPhotoRGB },
		{ "SMPTE_C_RGB", { .63, .34, .31, .595, .155, .07 }, "D65_2Degree", GA22, &P::SMPTE_C_RGB },
		{ "cieRGB", { .7347, .2653, .2738, .7174, .1666, .0089 }, "E_2Degree", GA22, &P::cieRGB },
		{ "cieXYZ", { 1, 0, 0, 1, 0, 0 }, "E_2Degree", GA22, &P::cieXYZ },
	};
	static std::vector<Space> v;
	if (v.empty()) {
		rgb_color_space_definition_presets p;
		std::vector<Space> t;
		for (auto& e : d) t.push_back(Space{ e.name, (p.*e.fn)(), make_ref(e.p, wp_named(e.white), e.g) });
		v.swap(t);
	}
	return v;
}
gamma* preset_gamma(Gam g) {
	gamma_presets p;
	switch (g) {
	case GA18: return p.gamma1_8(); case GA22: return p.gamma2_2(); case GA26: return p.gamma2_6(); case GA28: return p.gamma2_8();
	case GASRGB: return p.sRGB(); case GAADOBE: return p.gammaAdobe(); case GAROMM: return p.gammaRomm(); default: return p.gammaUHDTV();
	}
}
// A well conditioned random space: primaries spread around the white, one of the published or a random white, any curve.
Space random_space(Rng& r, bool imaginary) {
	for (;;) {
		double p[6] = { r.range(.55, .74), r.range(.26, .36), r.range(.1, .33), r.range(.55, .84), r.range(.03, .2), r.range(.0, .12) };
		if (imaginary) { if (r.chance(.5)) { p[2] = r.range(-.05, .3); p[3] = r.range(.7, 1.05); } if (r.chance(.5)) { p[4] = r.range(-.02, .2); p[5] = r.range(-.08, .03); } if (r.chance(.3)) { p[0] = r.range(.7, .8); p[1] = r.range(.25, .33); } if (r.chance(.3)) { int i = r.below(3), j = r.below(3); std::swap(p[2 * i], p[2 * j]); std::swap(p[2 * i + 1], p[2 * j + 1]); } }
		else if (p[0] + p[1] > 1 || p[2] + p[3] > 1) continue; // a real colour has no negative chromaticity
		for (auto& x : p) x = fl(x);
		WP w = r.pick(wps());
		white_point* lw;
		if (r.chance(.3)) {
			w.x = fl(r.range(.27, .46)); w.y = fl(r.range(.29, .42)); w.X = w.x / w.y; w.Y = 1; w.Z = (1 - w.x - w.y) / w.y;
			lw = new white_point((float)w.x, (float)w.y);
		} else {
			w.Y = r.chance(.4) ? fl(r.range(.4, 1)) : 1; // a white need not have luminance 1
			w.X = fl(w.X * w.Y); w.Z = fl(w.Z * w.Y); w.x = fl(w.x); w.y = fl(w.y);
			lw = new white_point((float)w.X, (float)w.Y, (float)w.Z, (float)w.x, (float)w.y);
		}
		Gam g = (Gam)r.below(9);
		RS* ref = make_ref(p, w, g);
		double s[3]; V one = mulv(ref->Mi, V{ w.X, w.Y, w.Z }); (void)one;
		bool ok = true;
		for (int j = 0; j < 3; ++j) { s[j] = ref->M[j] + ref->M[3 + j] + ref->M[6 + j]; if (!(s[j] > .05 && s[j] < 3)) ok = false; }
		if (!ok) { delete ref; delete lw; continue; }
		gamma* lg;
		if (g == GACUSTOM) {
			float e = (float)r.range(1.2, 2.9); ref->gexp = e;
			lg = new gamma(std::vector<gamma_part*>{ new gamma_part([e](float v) { return std::pow(v, 1.f / e); }) }, std::vector<gamma_part*>{ new gamma_part([e](float v) { return std::pow(v, e); }) });
		} else lg = preset_gamma(g);
		return Space{ sfmt("custom{r=%g,%g g=%g,%g b=%g,%g white=%g,%g,%g curve=%d exp=%g}", p[0], p[1], p[2], p[3], p[4], p[5], w.X, w.Y, w.Z, (int)g, ref->gexp),
			new rgb_color_space_definition((float)p[0], (float)p[1], (float)p[2], (float)p[3], (float)p[4], (float)p[5], lw, lg), ref };
	}
}
const std::vector<Space>& custom_spaces(uint64_t seed) {
	static std::vector<Space> v;
	if (v.empty()) {
		Rng r(seed * 77 + 5); std::vector<Space> t;
		for (int i = 0; i < 24; ++i) {
			t.push_back(random_space(r));
			if (i % 3 == 0) continue; // the others share the white point object or the curve of the one before
			const Space& b = t[i - 1]; RS s = *t[i].ref;
			if (i % 3 == 1) { for (int k = 0; k < 3; ++k) s.W[k] = b.ref->W[k]; s.wx = b.ref->wx; s.wy = b.ref->wy; s.derive(); bool ok = true; for (int j = 0; j < 3; ++j) { double q = s.M[j] + s.M[3 + j] + s.M[6 + j]; if (!(q > .05 && q < 3)) ok = false; } if (ok) { *const_cast<RS*>(t[i].ref) = s; t[i].def->set_white_point(b.def->get_white_point()); t[i].name += " with the white of the one before"; } }
			else { const_cast<RS*>(t[i].ref)->g = b.ref->g; const_cast<RS*>(t[i].ref)->gexp = b.ref->gexp; t[i].def->set_gamma_curve(b.def->get_gamma_curve()); t[i].name += " with the curve of the one before"; }
		}
		v.swap(t);
	}
	return v;
}
// One definition object that is edited in place from pick to pick, so that anything remembered about its address is stale.
static const Space& living_space(Ctx& c) {
	static Space* s = nullptr; static RS ref;
	const Space& from = c.rng.chance(.5) ? c.rng.pick(presets()) : c.rng.pick(custom_spaces(c.seed * 131 + c.chunk));
	if (!s) s = new Space{ "", new rgb_color_space_definition(*from.def), &ref };
	static std::vector<std::pair<WP, white_point*>> whites;
	if (whites.empty()) for (auto& w : wps()) { white_point_presets p; whites.push_back({ w, (p.*w.fn)() }); }
	if (s->name.empty() || c.rng.chance(.4)) { *s->def = *from.def; ref = *from.ref; s->name = "edited " + from.name; return *s; }
	if (c.rng.chance(.7)) { // only the white
		auto& e = c.rng.pick(whites); RS t = ref;
		t.W[0] = fl(e.first.X); t.W[1] = fl(e.first.Y); t.W[2] = fl(e.first.Z); t.wx = fl(e.first.x); t.wy = fl(e.first.y); t.derive();
		bool ok = true; for (int j = 0; j < 3; ++j) { double q = t.M[j] + t.M[3 + j] + t.M[6 + j]; if (!(q > .05 && q < 3)) ok = false; }
		if (ok) { ref = t; s->def->set_white_point(e.second); s->name += sfmt(" white=%g,%g,%g", t.W[0], t.W[1], t.W[2]); }
	} else { ref.g = from.ref->g; ref.gexp = from.ref->gexp; s->def->set_gamma_curve(from.def->get_gamma_curve()); s->name += " curve of " + from.name; }
	if (s->name.size() > 400) { *s->def = *from.def; ref = *from.ref; s->name = "edited " + from.name; }
	return *s;
}
const Space& pick_space(Ctx& c, bool living) {
	static bool again = false;
	if (living) { again = c.rng.chance(again ? .5 : .08); if (again) return living_space(c); }
	if (c.rng.chance(.3)) return presets()[0];
	if (c.rng.chance(.7)) return c.rng.pick(presets());
	return c.rng.pick(custom_spaces(c.seed * 131 + c.chunk));
}

// ---- snapshots ----------------------------------------------------------------------------------------------------
static void put(std::string& s, const void* p, size_t n) { s.append((const char*)p, n); }
template <class X> static void putv(std::string& s, X v) { put(s, &v, sizeof v); }
std::string snapshot(color_base* c) {
	std::string s; putv(s, (int)c->get_color_type());
	auto v = c->get_component_vector(); putv(s, v.size()); for (float f : v) putv(s, f);
	putv(s, c->alpha()); putv(s, (void*)c->get_rgb_color_space()); putv(s, c->get_component_max()); putv(s, c->get_component_min());
	return s;
}
std::string snapshot(white_point* w) { std::string s; for (float f : w->get_tristimulus()) putv(s, f); for (float f : w->get_chromaticity_coordinate()) putv(s, f); return s; }
std::string snapshot(gamma* g) {
	std::string s;
	for (int k = 0; k < 2; ++k) {
		auto p = k ? g->get_inverse_gamma_curve_parts() : g->get_gamma_curve_parts();
		putv(s, p.size());
		for (auto q : p) { putv(s, (void*)q); if (q) { putv(s, q->get_upper_border()); auto f = q->get_gamma_function(); putv(s, (bool)f); if (f) for (float x : { 0.f, .001f, .2f, .7f, 1.f }) putv(s, f(x)); } }
	}
	return s;
}
std::string snapshot(rgb_color_space_definition* d) {
	std::string s;
	for (float f : d->get_red_chromaticity_coordinate()) putv(s, f);
	for (float f : d->get_green_chromaticity_coordinate()) putv(s, f);
	for (float f : d->get_blue_chromaticity_coordinate()) putv(s, f);
	for (int k = 0; k < 2; ++k) { auto m = k ? d->get_inverse_transform_matrix() : d->get_transform_matrix(); putv(s, m.rows()); putv(s, m.columns()); for (auto& r : m.values()) for (float f : r) putv(s, f); }
	putv(s, (void*)d->get_white_point()); putv(s, (void*)d->get_gamma_curve());
	return s + snapshot(d->get_white_point()) + snapshot(d->get_gamma_curve());
}

// ---- generators ---------------------------------------------------------------------------------------------------
double gen_alpha(Ctx& c, T t) {
	double a; int k = c.rng.below(8);
	if (k == 0) a = 0; else if (k <= 2) a = 1; else if (k == 3) a = c.rng.chance(.5) ? 1e-4 : .9999; else if (k == 4) a = c.rng.below(256) / 255.; else a = c.rng.u();
	if (is_true(t)) { a *= 255; if (c.rng.chance(.7)) a = std::round(a); }
	return fl(a);
}
static V rgb_seed(Rng& r, GenMode m) {
	static const double edges[] = { 0, 1, .5, 1. / 3, 2. / 3, .25, .75, 1e-3, .999, 1e-5, 1 - 1e-5, 1. / 255, 254. / 255, .04045, .081 };
	V v(3);
	if (m == G_EDGE) { for (auto& x : v) x = r.chance(.6) ? edges[r.below(5)] : edges[r.below(15)]; if (r.chance(.3)) v[r.below(3)] = v[r.below(3)]; }
	else if (m == G_GREY) { double g = r.chance(.3) ? edges[r.below(15)] : r.chance(.4) ? r.below(256) / 255. : r.u(); v = V{ g, g, g }; }
	else if (m == G_NEAR) {
		double g = r.u(), e = std::pow(10, -1 - 4 * r.u()); for (auto& x : v) x = clampd(g + e * (r.u() - .5), 0, 1);
		if (r.chance(.5)) { double k = std::pow(10, -5 * r.u()); for (auto& x : v) x = k * r.u(); }
		if (r.chance(.4)) v[r.below(3)] = v[r.below(3)];
	}
	else for (auto& x : v) x = r.chance(.2) ? r.below(256) / 255. : r.u();
	return v;
}
V gen(Ctx& c, T t, const Space& s, GenMode m) {
	Rng& r = c.rng; bool any = m == G_ANY;
	if (m == G_ANY) { static const GenMode k[] = { G_UNIFORM, G_UNIFORM, G_EDGE, G_EDGE, G_GREY, G_GAMUT, G_GAMUT, G_GAMUT, G_NEAR }; m = k[r.below(9)]; }
	auto& rg = comps_of(t);
	V v(rg.size());
	// the numbers of an earlier colour again, or with one of them changed: results must not depend on what came before
	if (any && r.chance(.05) && c.last[rg.size()].size() == rg.size()) {
		v = c.last[rg.size()];
		if (r.chance(.4)) { int i = r.below(v.size()); v[i] = r.range(rg[i].lo, rg[i].hi); }
		for (size_t i = 0; i < v.size(); ++i) v[i] = fl(clampd(v[i], rg[i].lo, rg[i].hi));
		return c.last[rg.size()] = v;
	}
	if (m == G_GAMUT && !is_cie(t) && r.chance(.04) && !c.last_gamut[t].empty()) return c.last_gamut[t];
	if (m == G_GAMUT || m == G_GREY || m == G_NEAR || (m == G_EDGE && r.chance(.5))) {
		V seed = rgb_seed(r, m);
		for (auto& x : seed) x = fl(x);
		v = ref_conv(RGBD, t, seed, *s.ref);
		if (is_true(t) && r.chance(.2)) for (auto& x : v) x = clampd(x + r.u() - .5, 0, 255);
	}
	else for (size_t i = 0; i < v.size(); ++i) {
		double lo = rg[i].lo, hi = rg[i].hi;
		if ((t == XYZ_ || t == XYY_) && !r.chance(.15)) hi = 1.1;
		if (m == G_EDGE) {
			int k = r.below(7);
			double e = (hi - lo) * std::pow(10, -2 - 4 * r.u());
			v[i] = k == 0 ? lo : k == 1 ? hi : k == 2 ? (lo + hi) / 2 : k == 3 ? lo + e : k == 4 ? hi - e : k == 5 ? (lo + hi) / 2 + (r.chance(.5) ? e : -e) : r.range(lo, hi);
			if (rg[i].hue && r.chance(.7)) v[i] = 60 * r.below(6) + (r.chance(.5) ? 0 : r.chance(.5) ? -1e-3 : 1e-3);
			v[i] = clampd(v[i], lo, hi);
		}
		else v[i] = r.range(lo, hi);
		if (is_true(t) && r.chance(.8)) v[i] = std::round(v[i]);
	}
	if (t == CMYK_ && m == G_UNIFORM && r.chance(.1)) v[3] = 1;
	for (auto& x : v) x = fl(x);
	c.last[v.size()] = v;
	if (m == G_GAMUT) c.last_gamut[t] = v;
	return v;
}
void guarded2(Ctx& c, Pool& P, const Space& sp, color_base* a, color_base* b, const std::string& site, const std::function<std::string()>& describe, const std::function<void()>& f, const std::function<void()>& vary) {
	guarded(c, site, describe, f);
	if (vary && c.rng.chance(.08)) { vary(); c.event("one parameter changed"); guarded(c, site, describe, f); }
	if (!a || !c.rng.chance(.08)) return;
	color_base* q = b && c.rng.chance(.3) ? b : a, * g = P(gen_color(c, type_of(q), sp));
	assign_typed(q, g); if (c.rng.chance(.4)) q->alpha(g->alpha());
	c.event("argument edited in place"); guarded(c, site, describe, f);
}
color_base* gen_color(Ctx& c, T t, const Space& s, GenMode m) { V v = gen(c, t, s, m); return make(t, v, gen_alpha(c, t), s.def); }
// Coincidences that independent generators never produce: the same numbers in another type, one equal component or
// opacity, the same colour expressed in another type, copies.
color_base* gen_partner(Ctx& c, Pool& P, color_base* a, T u, const Space& s) {
	Rng& r = c.rng; T t = type_of(a); int k = r.below(24);
	if (k > 5) return P(gen_color(c, u, s));
	if (k == 0) return t == u ? P(clone(a)) : P(to_x(a, u));
	V v = comps(a); auto& rg = comps_of(u);
	if (v.size() != rg.size()) { color_base* b = P(gen_color(c, u, s)); if (k & 1) b->alpha(a->alpha() / alpha_max(t) * alpha_max(u)); return b; }
	for (size_t i = 0; i < v.size(); ++i) v[i] = fl(clampd(v[i], rg[i].lo, rg[i].hi)); // same numbers
	V w = gen(c, u, s, G_ANY);
	if (k == 1 || k == 2) return P(make(u, v, k == 1 ? a->alpha() / alpha_max(t) * alpha_max(u) : gen_alpha(c, u), s.def));
	if (k == 3) for (size_t i = 0; i < v.size(); ++i) if (r.chance(.5)) v[i] = w[i];
	if (k == 4) v[r.below((int)v.size())] = w[0] >= rg[0].lo ? clampd(w[r.below((int)w.size())], 0, 1) : 0;
	if (k == 5) { int i = r.below((int)v.size()); v[i] = fl(v[i] + (r.chance(.5) ? 1 : -1) * std::pow(10, -6 * r.u()) * rg[i].unit * .1); }
	for (size_t i = 0; i < v.size(); ++i) v[i] = fl(clampd(v[i], rg[i].lo, rg[i].hi));
	return P(make(u, v, gen_alpha(c, u), s.def));
}
void maybe_elsewhere(Ctx& c, color_base* b) { if (c.rng.chance(.15)) { b->set_rgb_color_space(pick_space(c).def); c.event("colours of two spaces"); } }
float hostile(Rng& r) {
	static const float h[] = { NAN, -NAN, INFINITY, -INFINITY, 0.f, -0.f, 1e-45f, -1e-45f, 1.17549435e-38f, 3.4e38f, -3.4e38f, 1e30f, -1e30f, 1e10f, -1e10f, 2147483648.f, -2147483648.f, 4294967296.f, 360.f, 359.99998f, 720.f, -360.f, -1e-7f, 256.f, 255.5f, 255.f, -1.f, 1.0000001f, 100.f, 128.f, -128.f, .5f, 1.f, 1e-20f, 16777216.f };
	int k = r.below(4);
	if (k < 2) return h[r.below((int)(sizeof h / sizeof *h))];
	if (k == 2) { uint32_t b = (uint32_t)r.next(); float f; memcpy(&f, &b, 4); return f; }
	return (float)r.range(-400, 400);
}
color_base* gen_hostile(Ctx& c, T t, rgb_color_space_definition* d) {
	V v(comps_of(t).size()); auto& rg = comps_of(t);
	for (size_t i = 0; i < v.size(); ++i) v[i] = c.rng.chance(.3) ? c.rng.range(rg[i].lo, rg[i].hi) : hostile(c.rng);
	return make(t, v, c.rng.chance(.5) ? hostile(c.rng) : gen_alpha(c, t), d);
}

// ---- comparison ---------------------------------------------------------------------------------------------------
double hue_diff(double a, double b) { double d = std::fabs(a - b); return d > 180 ? std::fabs(360 - d) : d; }
Close close(const V& got, const std::function<V(const V&)>& ref, const V& in, const std::vector<Comp>& ir, const std::vector<Comp>& orr, double base, double factor, bool full) {
	Close r; r.ok = true; r.ill = false;
	g_round_bias = 0; g_noise = 0;
	r.exp = ref(in); size_t n = r.exp.size();
	r.tol.assign(n, 0);
	if (got.size() != n) { r.ok = false; return r; }
	auto dist = [&](size_t i, double a, double b) { return orr[i].hue ? hue_diff(a, b) : std::fabs(a - b); };
	V dev(n, 0.), exact(n); std::vector<char> wrap(n, 0);
	for (size_t i = 0; i < n; ++i) { r.tol[i] = base * std::max(orr[i].unit, std::fabs(r.exp[i])); exact[i] = dist(i, got[i], r.exp[i]); if (!(exact[i] <= r.tol[i])) r.ok = false; }
	if (r.ok && !full) return r;
	// second look: how far does the reference itself move under perturbations as large as single precision rounding
	for (double x : in) if (x != 0 && std::fabs(x) < 1e-35) r.ill = true; // the products of such numbers underflow
	for (double x : r.exp) if (x != 0 && std::fabs(x) < 1e-35) r.ill = true;
	if (r.ill) { r.ok = true; r.tol.assign(n, INFINITY); return r; }
	Rng pr(12345); V slack(n, 0.);
	for (int look = 0; look < 2; ++look) { // a third look with more perturbations before anything is reported
	V tol0 = r.tol;
	for (int k = look ? 6 * (int)in.size() + 24 : 0; k < 6 * (int)in.size() + (look ? 1000 : 24); ++k) {
		V p = in; bool axis = k < 6 * (int)in.size();
		for (size_t i = 0; i < in.size(); ++i) {
			double d = in[i] ? std::max(3e-7 * std::fabs(in[i]), 5e-45) : 0, f;
			if (axis) f = (size_t)(k / 6) == i ? (const double[]){ 1, -1, .3, -.3, .1, -.1 }[k % 6] : 0;
			else f = pr.u() * 2 - 1;
			p[i] = p[i] + f * d;
		}
		if (!axis && k & 1) p = in;
		g_round_bias = (k % 3 - 1) * 6e-3;
		g_noise = axis ? 0 : k + 1; if (look && k % 5 == 0) g_noise |= 1ull << 40;
		bool own = look && k % 5 == 2; // errors that differ between the channels: only to see whether a hue may fall on the other side of 0 or not
		if (own) g_noise |= 1ull << 41;
		V e = ref(p);
		if (own) { for (size_t i = 0; i < n; ++i) if (orr[i].hue && std::fabs(e[i] - r.exp[i]) > 180) wrap[i] = 1; continue; }
		for (size_t i = 0; i < n; ++i) dev[i] = std::max(dev[i], dist(i, e[i], r.exp[i]));
	}
	g_noise = 0;
	for (double b : { 6e-3, -6e-3 }) { g_round_bias = b; V e = ref(in); for (size_t i = 0; i < n; ++i) slack[i] = std::max(slack[i], dist(i, e[i], r.exp[i])); }
	g_round_bias = 0;
	r.ok = true;
	for (size_t i = 0; i < n; ++i) {
		double extra = std::max(slack[i] * 1.0001, factor * dev[i]);
		if (dev[i] > .02 * orr[i].unit) r.ill = true;
		if (!(dev[i] == dev[i])) { r.ill = true; extra = INFINITY; }
		if (look && dev[i] > .02 * orr[i].unit) extra = INFINITY; // next to a pole or jump of the formula: nothing can be said
		r.tol[i] += extra;
		if (wrap[i] && std::fabs(got[i] - r.exp[i]) > 180 && hue_diff(got[i], r.exp[i]) <= 1 + r.tol[i] && (got[i] == orr[i].hi || r.exp[i] >= orr[i].hi)) continue; // capped
		if (!(exact[i] <= r.tol[i])) r.ok = false;
	}
	if (r.ok || full) break;
	if (!look) r.tol = tol0;
	}
	return r;
}
