// C21 distances as distances, C22 distance formulas.
// Operands are the coordinates which the library itself assigns to the colours in the space of the formula (C05 and C06
// decide those); the formulas are evaluated in double precision.
#include "ref.h"
typedef color_distance D;
typedef std::function<double(const V&, const V&)> Formula;
struct Dist { std::string name; T space; std::function<double(color_base*, color_base*)> fn; Formula f; double unit; bool sym, tri; };
static double sq(const V& a, const V& b) { double s = 0; for (size_t i = 0; i < a.size(); ++i) s += (a[i] - b[i]) * (a[i] - b[i]); return s; }
static double eu(const V& a, const V& b) { return std::sqrt(sq(a, b)); }
static double weighted(const V& a, const V& b) {
	double r = (a[0] + b[0]) / 2 * 255, d[3]; for (int i = 0; i < 3; ++i) d[i] = (a[i] - b[i]) * 255;
	return std::sqrt((2 + r / 256) * d[0] * d[0] + 4 * d[1] * d[1] + (2 + (255 - r) / 256) * d[2] * d[2]) / 255;
}
struct Par { double kL, k1, k2, kC, kH, l, c; color_type where; }; // where: RGB_DEEP, or a type for which RGB_DEEP is used instead
static Par standard() { return Par{ 1, fl_(.045f), fl_(.015f), 1, 1, 2, 1, color_type::RGB_DEEP }; }
static std::vector<Dist> dists(const Par& p, bool defaults) {
	auto F = [](double x) { return (float)x; };
	std::vector<Dist> v = {
		{ "squared", RGBD, [](color_base* a, color_base* b) { return D::euclidean_distance_squared(a, b); }, sq, 1, true, false },
		{ "euclidean", RGBD, [](color_base* a, color_base* b) { return D::euclidean_distance(a, b); }, eu, 1, true, true },
		{ "squared rgb", RGBD, [=](color_base* a, color_base* b) { return D::euclidean_distance_squared(a, b, p.where); }, sq, 1, true, false },
		{ "euclidean rgb", RGBD, [=](color_base* a, color_base* b) { return D::euclidean_distance(a, b, p.where); }, eu, 1, true, true },
		{ "squared luv", LUV_, [](color_base* a, color_base* b) { return D::euclidean_distance_squared(a, b, color_type::CIELUV); }, sq, 1, true, false },
		{ "euclidean luv", LUV_, [](color_base* a, color_base* b) { return D::euclidean_distance(a, b, color_type::CIELUV); }, eu, 1, true, true },
		{ "weighted", RGBD, [](color_base* a, color_base* b) { return D::euclidean_distance_weighted(a, b); }, weighted, 1, true, false },
		{ "cie76", LAB_, [](color_base* a, color_base* b) { return D::cielab_delta_e_cie76(a, b); }, eu, 1, true, true },
		{ "cie94", LAB_, [=](color_base* a, color_base* b) { return defaults ? D::cielab_delta_e_cie94(a, b) : D::cielab_delta_e_cie94(a, b, F(p.kL), F(p.k1), F(p.k2), F(p.kC), F(p.kH)); }, [=](const V& a, const V& b) { return deltaE94(a, b, p.kL, p.k1, p.k2, p.kC, p.kH); }, 1, false, false },
		{ "cmc", LAB_, [=](color_base* a, color_base* b) { return defaults ? D::cmc_delta_e_lc84(a, b) : D::cmc_delta_e_lc84(a, b, F(p.l), F(p.c)); }, [=](const V& a, const V& b) { return deltaCMC(a, b, p.l, p.c); }, 1, false, false },
		{ "cie00", LAB_, [=](color_base* a, color_base* b) { return defaults ? D::cielab_delta_e_cie00(a, b) : D::cielab_delta_e_cie00(a, b, F(p.kL), F(p.k1), F(p.k2), F(p.kC), F(p.kH)); }, [=](const V& a, const V& b) { return deltaE00(a, b, p.kL, p.k1, p.k2, p.kC, p.kH); }, 1, false, false },
	};
	return v;
}

// ---- CIEDE2000 as the tree at hand computes it (known findings cie00-rotation and cie00-nan): whole degree hues, plain
// instead of adjusted chroma, and the rotation term with the sign of the exponent reversed and without the degree factor
// lost. Returns the interval of values it can take in single precision, and whether it can be NaN.
struct Range { double lo, hi; bool nan; };
static std::vector<Range> defect00(const V& p, const V& q, const Par& k) {
	double r = M_PI / 180, C1 = std::hypot(p[1], p[2]), C2 = std::hypot(q[1], q[2]), m = (C1 + C2) / 2, G = std::sqrt(std::pow(m, 7) / (std::pow(m, 7) + std::pow(25., 7)));
	auto hues = [&](const V& v) { std::set<int> s; double a = v[1] + v[1] / 2 * (1 - G), d = std::atan2(v[2], a) / r; for (double e : { -2e-4, 0., 2e-4 }) { int h = (int)(d + e) % 360; s.insert(h < 0 ? h + 360 : h); } return s; };
	std::vector<Range> out;
	if (m == 0) { double d = std::fabs(p[0] - q[0]), mL = (p[0] + q[0]) / 2; d /= k.kL * (1 + k.k2 * std::pow(mL - 50, 2) / std::sqrt(20 + std::pow(mL - 50, 2))); out.push_back(Range{ d * (1 - 1e-5) - 1e-6, d * (1 + 1e-5) + 1e-6, true }); return out; }
	for (int h1 : hues(p)) for (int h2 : hues(q)) {
		double H = std::abs(h1 - h2) > 180 ? (h1 + h2 + 360) / 2. : (h1 + h2) / 2.;
		int dh = h2 - h1; if (std::abs(dh) > 180) dh += h2 <= h1 ? 360 : -360;
		double mL = (p[0] + q[0]) / 2, sL = 1 + k.k2 * std::pow(mL - 50, 2) / std::sqrt(20 + std::pow(mL - 50, 2)), sC = 1 + k.k1 * m;
		double Tt = 1 - .17 * std::cos(r * (H - 30)) + .24 * std::cos(r * 2 * H) + .32 * std::cos(r * (3 * H + 6)) - .2 * std::cos(r * (4 * H - 63)), sH = 1 + k.k2 * m * Tt;
		double tL = (q[0] - p[0]) / (k.kL * sL), tC = (C2 - C1) / (k.kC * sC), tH = 2 * std::sqrt(C1 * C2) * std::sin(r * dh / 2.) / (k.kH * sH);
		double x = std::pow((H - 275) / 25, 2), arg = 60 * std::exp(x), rel = 1.5e-6 * (x + 2), slo = -1, shi = 1;
		bool overflow = std::log(60.) + x > 88.72 - 1e-3;
		if (arg * r * rel < .1) { double a = arg * r; slo = 1; shi = -1; for (int i = -20; i <= 20; ++i) { double s = std::sin(a * (1 + rel * i / 20)); slo = std::min(slo, s); shi = std::max(shi, s); } double w = 1e-5; slo -= w; shi += w; }
		double cross = tC * tH, dC = 3e-7 * std::max(C1, C2) / (k.kC * sC), base = tL * tL + tC * tC + tH * tH;
		double t1 = -2 * G * slo * cross, t2 = -2 * G * shi * cross, lo = base + std::min(t1, t2), hi = base + std::max(t1, t2);
		double slack = 4e-5 * (base + std::fabs(2 * G * cross)) + 2 * std::fabs(tC) * dC + dC * dC + 2 * G * dC * std::fabs(tH) + 1e-12;
		lo -= slack; hi += slack;
		out.push_back(Range{ std::sqrt(std::max(0., lo)) - 1e-6, std::sqrt(std::max(0., hi)) + 1e-6, overflow || lo <= 0 });
	}
	return out;
}
static bool in_range(const std::vector<Range>& r, double v) { for (auto& x : r) if (v != v ? x.nan : v >= x.lo && v <= x.hi) return true; return false; }
static bool nan_possible(const std::vector<Range>& r) { for (auto& x : r) if (x.nan) return true; return false; }
static double lower(const std::vector<Range>& r) { double l = 1e9; for (auto& x : r) l = std::min(l, x.lo); return l; }

static V coords(Pool& P, color_base* x, T s) { return comps(type_of(x) == s ? x : P(to_x(x, s))); }
// pairs: unrelated, near, differing in one coordinate only, and Lab pairs laid out for the formulas
static void gen_pair2(Ctx& c, Pool& P, const Space& sp, color_base*& a, color_base*& b) {
	T t = (T)c.rng.below(NT), u = c.rng.chance(.5) ? t : (T)c.rng.below(NT); int k = c.rng.below(10);
	if (k < 5) { a = P(gen_color(c, t, sp)); b = gen_partner(c, P, a, u, sp); return; }
	if (k < 7) { a = P(gen_color(c, t, sp)); V v = comps(a); double e = std::pow(10, -4 * c.rng.u()); for (size_t i = 0; i < v.size(); ++i) if (c.rng.chance(.6)) v[i] = fl_(clampd(v[i] + (c.rng.u() * 2 - 1) * e * comps_of(t)[i].unit, comps_of(t)[i].lo, comps_of(t)[i].hi)); b = P(make(t, v, gen_alpha(c, t), sp.def)); return; }
	// polar layout in Lab: hues of every quadrant and on both sides of every border, equal chroma, equal hue, equal lightness
	auto hue = [&] { return c.rng.chance(.4) ? 15. * c.rng.below(24) + (c.rng.chance(.5) ? 0 : c.rng.range(-1, 1)) : c.rng.chance(.3) ? c.rng.range(205, 345) : c.rng.range(0, 360); };
	double L1 = c.rng.range(0, 100), C1 = c.rng.chance(.2) ? c.rng.range(0, 2) : c.rng.chance(.1) ? 0 : c.rng.range(0, 110), h1 = hue(), L2 = c.rng.range(0, 100), C2 = c.rng.chance(.1) ? 0 : c.rng.range(0, 110), h2 = hue();
	int w = c.rng.below(8); if (w == 0 || w == 3) L2 = L1; if (w == 1 || w == 3) C2 = C1; if (w == 2) h2 = h1; if (w == 4) h2 = h1 + 180; if (w == 5) h2 = h1 + c.rng.range(-30, 30); if (c.rng.chance(.1)) L1 = 16; if (c.rng.chance(.05)) L1 = 15.9999;
	auto lab = [](double L, double C, double h) { return V{ fl_(L), fl_(C * std::cos(h * M_PI / 180)), fl_(C * std::sin(h * M_PI / 180)) }; };
	a = P(make(LAB_, lab(L1, C1, h1), gen_alpha(c, LAB_), sp.def)); b = P(make(LAB_, lab(L2, C2, h2), gen_alpha(c, LAB_), sp.def));
}
static void gen_pair(Ctx& c, Pool& P, const Space& sp, color_base*& a, color_base*& b) { gen_pair2(c, P, sp, a, b); if (b != a) maybe_elsewhere(c, b); }
static Par gen_par(Ctx& c) {
	Par p; auto k = [&] { return fl_(c.rng.chance(.3) ? (const double[]){ 1, 2, .5 }[c.rng.below(3)] : c.rng.chance(.1) ? std::pow(10, c.rng.range(-1.5, 2)) : c.rng.range(.3, 3)); };
	p.kL = k(); p.kC = k(); p.kH = k(); p.l = k(); p.c = k(); p.k1 = fl_(c.rng.chance(.3) ? .048 : c.rng.chance(.1) ? c.rng.range(0, 2) : c.rng.range(0, .1)); p.k2 = fl_(c.rng.chance(.3) ? .014 : c.rng.chance(.1) ? c.rng.range(0, 2) : c.rng.range(0, .06));
	p.where = color_type::RGB_DEEP; T w = (T)c.rng.below(NT + 1); if (c.rng.chance(.8) && w != LUV_) p.where = (color_type)w; return p;
}
static std::vector<std::pair<V, V>> directed() { // Lab pairs that always take part: the published CIEDE2000 test set in excerpt, and the witnesses of the known findings
	static const double d[][6] = { { 50, 2.6772, -79.7751, 50, 0, -82.7485 }, { 50, 3.1571, -77.2803, 50, 0, -82.7485 }, { 50, -1.3802, -84.2814, 50, 0, -82.7485 }, { 50, 0, 0, 50, -1, 2 }, { 50, 2.49, -.001, 50, -2.49, .0009 }, { 50, -.001, 2.49, 50, .0009, -2.49 },
		{ 50, 2.5, 0, 73, 25, -18 }, { 50, 2.5, 0, 61, -5, 29 }, { 50, 2.5, 0, 56, -27, -3 }, { 50, 2.5, 0, 58, 24, 15 }, { 60.2574, -34.0099, 36.2677, 60.4626, -34.1751, 39.4387 }, { 63.0109, -31.0961, -5.8663, 62.8187, -29.7946, -4.0864 }, { 61.2901, 3.7196, -5.3901, 61.4292, 2.248, -4.962 },
		{ 35.0831, -44.1164, 3.7933, 35.0232, -40.0716, 1.5901 }, { 22.7233, 20.0904, -46.694, 23.0331, 14.973, -42.5619 }, { 36.4612, 47.858, 18.3852, 36.2715, 50.5065, 21.2231 }, { 90.8027, -2.0831, 1.441, 91.1528, -1.6435, .0447 }, { 6.7747, -.2908, -2.4247, 5.8714, -.0985, -2.2286 }, { 2.0776, .0795, -1.135, .9033, -.0636, -.5514 },
		{ 53, 80, 67, 55, 70, 60 }, { 32, 79, -107, 40, 60, -80 }, { 30, 10, -50, 60, -20, -60 }, { 70, 40, 5, 20, 5, 20 } };
	std::vector<std::pair<V, V>> v; for (auto& x : d) v.push_back({ V{ fl_(x[0]), fl_(x[1]), fl_(x[2]) }, V{ fl_(x[3]), fl_(x[4]), fl_(x[5]) } });
	return v;
}

PROPERTY(C22) {
	c.rule = "a case is one distance function with one choice of parameters on one pair of colours of any types, compared with its published formula in double precision; distinct = (function, type pair, default or random parameters, 8-bucket coordinates of both)";
	auto one = [&](const Space& sp, color_base* a, color_base* b, const Par& p, bool defaults) {
		Pool P;
		for (auto& d : dists(p, defaults)) {
			c.tick("distance");
			guarded(c, d.name, [&] { return show(a) + " / " + show(b); }, [&] {
				V x = coords(P, a, d.space), y = coords(P, b, d.space), in = x; in.insert(in.end(), y.begin(), y.end());
				auto rg = comps_of(d.space); rg.insert(rg.end(), comps_of(d.space).begin(), comps_of(d.space).end());
				double got = d.fn(a, b); size_t n = x.size(); c.event(d.name);
				auto ref = [&](const V& v) { return V{ d.f(V(v.begin(), v.begin() + n), V(v.begin() + n, v.end())) }; };
				Close k = close(V{ got }, ref, in, rg, { Comp{ 0, 1e4, false, d.unit } });
				if (k.ill) ++c.illcond;
				c.cover(d.name + TNAME[type_of(a)] + TNAME[type_of(b)] + (defaults ? "d" : ""), bucket(x, comps_of(d.space), 8) * 31 + bucket(y, comps_of(d.space), 8)); c.sample("%s: %s / %s -> %.9g", d.name.c_str(), show(a).c_str(), show(b).c_str(), got);
				if (k.ok) { if (d.name == "cie00") c.event("cie00 as published"); return; }
				std::string what = sfmt("%s of %s and %s in %s (kL=%.6g k1=%.6g k2=%.6g kC=%.6g kH=%.6g l=%.6g c=%.6g): %.9g, published %s tol %s", d.name.c_str(), show(a).c_str(), show(b).c_str(), sp.name.c_str(), p.kL, p.k1, p.k2, p.kC, p.kH, p.l, p.c, got, show(k.exp).c_str(), show(k.tol).c_str());
				if (d.name == "cie00") {
					auto r = defect00(x, y, p);
					if (in_range(r, got)) { c.event(got != got ? "cie00 as in the known finding, NaN" : r[0].hi - r[0].lo < 1e-3 * (1 + r[0].hi) ? "cie00 as in the known finding, determined" : "cie00 as in the known finding, within an interval"); c.knownf("cie00-rotation", "%s", what.c_str()); return; }
					what += sfmt("; known deviation [%.9g,%.9g]%s", r[0].lo, r[0].hi, r[0].nan ? " or NaN" : "");
				}
				c.fail(d.name, "%s", what.c_str());
			});
		}
	};
	uint64_t id = 0; const Space& s0 = presets()[0];
	for (auto& q : directed()) for (int w = 0; w < 4; ++w) if (c.mine(id++)) {
		Pool P; color_base* a = P(make(LAB_, w & 1 ? q.second : q.first, 1, s0.def)); color_base* b = P(make(LAB_, w & 1 ? q.first : q.second, .5, s0.def)); one(s0, a, b, w & 2 ? gen_par(c) : standard(), !(w & 2));
	}
	int n = c.scale(24000, 1200000);
	for (int i = 0; i < n; ++i) {
		Space sp = pick_space(c, true); Pool P; color_base* a, * b; gen_pair(c, P, sp, a, b); bool def = c.rng.chance(.4);
		Par par = def ? standard() : gen_par(c); one(sp, a, b, par, def);
		if (c.rng.chance(.08)) { color_base* q = c.rng.chance(.5) ? a : b; assign_typed(q, P(gen_color(c, type_of(q), sp))); c.event("argument edited in place"); one(sp, a, b, par, def); }
		if (!def && c.rng.chance(.12)) { // the same colours with one parameter changed
			Par q = gen_par(c), now = par; switch (c.rng.below(8)) { case 0: now.kL = q.kL; break; case 1: now.kC = q.kC; break; case 2: now.kH = q.kH; break; case 3: now.l = q.l; break; case 4: now.c = q.c; break; case 5: now.k1 = q.k1; break; case 6: now.k2 = q.k2; break; default: now.where = q.where; }
			c.event("one parameter changed"); one(sp, a, b, now, def);
		}
	}
}

PROPERTY(C21) {
	c.rule = "a case is one distance function on one triple of colours of any types: finite, not negative, zero for equal and positive for clearly different colours, symmetric, triangle inequality, independent of the type that expresses a colour; distinct = (function, type pair, 8-bucket coordinates of both)";
	Par p = standard(); auto ds = dists(p, true);
	auto one = [&](const Space& sp, color_base* a, color_base* b, color_base* z) {
		Pool P;
		for (auto& d : ds) {
			c.tick("distance");
			guarded(c, d.name, [&] { return show(a) + " / " + show(b) + " / " + show(z); }, [&] {
				std::string pair = show(a) + " / " + show(b) + " in " + sp.name; bool oo = d.name == "cie00";
				V x = coords(P, a, d.space), y = coords(P, b, d.space); double v = d.fn(a, b); c.event(d.name);
				std::vector<Range> r; if (oo) r = defect00(x, y, p);
				if (v != v && oo && nan_possible(r)) { c.event("cie00 NaN"); c.knownf("cie00-nan", "%s", pair.c_str()); }
				else if (!(v >= 0 && v <= 1e6)) c.fail(d.name + " range", "%s: %.9g", pair.c_str(), v);
				// zero for equals: the same object, a copy, a copy of other opacity
				color_base* q = P(clone(a)); color_base* q2 = P(clone(a)); q2->alpha(gen_alpha(c, type_of(a)));
				for (color_base* e : { a, q, q2 }) for (int w = 0; w < 2; ++w) { double s = w ? d.fn(e, a) : d.fn(a, e); c.event("equal"); if (!(s == 0)) c.fail(d.name + " of equals", "%s / %s: %.9g", show(a).c_str(), show(e).c_str(), s); }
				// positive for clear differences
				double gap = eu(x, y), clear = d.space == RGBD ? .02 : 2;
				if (gap > clear && (!oo || (lower(r) > 1e-3 && !nan_possible(r)))) { c.event("clear difference"); if (!(v > 1e-4)) c.fail(d.name + " of different colours", "%s: %.9g, coordinates differ by %.6g", pair.c_str(), v, gap); }
				if (d.sym) { double w = d.fn(b, a); c.event("symmetry"); if (!(std::fabs(v - w) <= 2e-6 * (1 + v))) c.fail(d.name + " symmetry", "%s: %.9g and %.9g", pair.c_str(), v, w); }
				if (d.tri) { double s1 = d.fn(a, z), s2 = d.fn(z, b); c.event("triangle"); if (!(v <= s1 + s2 + 2e-6 * (1 + s1 + s2))) c.fail(d.name + " triangle", "%s: %.9g, but %.9g + %.9g over %s", pair.c_str(), v, s1, s2, show(z).c_str()); }
				// a colour expressed in the space of the formula has the same coordinates there
				if (type_of(a) != d.space) { color_base* a2 = P(to_x(a, d.space)); double w = d.fn(a2, b), u = d.fn(b, a2), u0 = d.fn(b, a); c.event("re-expressed");
					bool n1 = oo && nan_possible(r), n2 = oo && nan_possible(defect00(y, x, p));
					if (!((v != v && w != w && n1) || std::fabs(v - w) <= 1e-5 * (1 + v)) || !((u != u && u0 != u0 && n2) || std::fabs(u0 - u) <= 1e-5 * (1 + u))) c.fail(d.name + " re-expressed", "%s: %.9g (%.9g reversed), but as %s: %.9g (%.9g)", pair.c_str(), v, u0, show(a2).c_str(), w, u); }
				// in any other type: the distance moves no more than the formula does with the coordinates
				T t = (T)c.rng.below(NT);
				if (t != type_of(a) && t != GREYT && t != GREYD && !oo) { color_base* a3 = P(to_x(a, t)); V x3 = coords(P, a3, d.space); double w = d.fn(a3, b), e = std::fabs(d.f(x3, y) - d.f(x, y)); c.event("other type");
					for (int q = 0; q < 8; ++q) { V u1 = x, u2 = x3; for (size_t j = 0; j < u1.size(); ++j) { double s = (q >> j & 1 ? 1 : -1) * 1e-6; u1[j] += s * std::fabs(u1[j]); u2[j] += s * std::fabs(u2[j]); } e = std::max(e, std::max(std::fabs(d.f(u2, y) - d.f(u1, y)), std::max(std::fabs(d.f(x3, y) - d.f(u1, y)), std::fabs(d.f(u2, y) - d.f(x, y))))); } // borders of the branches of the formula
					double tol = e * (1 + 1e-5) + (d.space == LAB_ ? 2e-3 : 1e-4) * (1 + std::max(v, w));
					if (!(std::fabs(v - w) <= tol)) c.fail(d.name + " in another type", "%s: %.9g, but with %s: %.9g (coordinates moved by %.6g)", pair.c_str(), v, show(a3).c_str(), w, eu(x, x3)); }
				c.cover(d.name + TNAME[type_of(a)] + TNAME[type_of(b)], bucket(x, comps_of(d.space), 8) * 31 + bucket(y, comps_of(d.space), 8));
			});
		}
	};
	uint64_t id = 0; const Space& s0 = presets()[0];
	for (auto& q : directed()) for (int w = 0; w < 2; ++w) if (c.mine(id++)) { Pool P; color_base* a = P(make(LAB_, w ? q.second : q.first, 1, s0.def)); color_base* b = P(make(LAB_, w ? q.first : q.second, .5, s0.def)); one(s0, a, b, P(gen_color(c, RGBD, s0))); }
	{ Pool P; color_base* a = P(make(RGBD, V{ 1, 0, 0 }, 1, s0.def)); color_base* b = P(make(RGBD, V{ 1, fl_(.2), 0 }, 1, s0.def)); one(s0, a, b, P(gen_color(c, RGBD, s0))); }
	int n = c.scale(10000, 500000);
	for (int i = 0; i < n; ++i) { Space sp = pick_space(c, true); Pool P; color_base* a, * b; gen_pair(c, P, sp, a, b); color_base* z = P(gen_color(c, (T)c.rng.below(NT), sp)); one(sp, a, b, z);
		if (c.rng.chance(.08)) { color_base* q = c.rng.chance(.5) ? a : b; assign_typed(q, P(gen_color(c, type_of(q), sp))); c.event("argument edited in place"); one(sp, a, b, z); } }
}
