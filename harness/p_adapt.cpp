// C23 chromatic adaptation.
#include "ref.h"
struct Cat { double M[9], Mi[9]; };
static const Cat VK = { { .40024, .7076, -.08081, -.2263, 1.16532, .0457, 0, 0, .91822 }, { 1.8599364, -1.1293816, .2198974, .3611914, .6388125, -.0000064, 0, 0, 1.0890636 } };
static const Cat BFD = { { .8951, .2664, -.1614, -.7502, 1.7135, .0367, .0389, -.0685, 1.0296 }, { .9869929, -.1470543, .1599627, .4323053, .5183603, .0492912, -.0085287, .0400428, .9684867 } };
static const Cat SC = { { 1, 0, 0, 0, 1, 0, 0, 0, 1 }, { 1, 0, 0, 0, 1, 0, 0, 0, 1 } };
static const Cat SHARP = { { 1.2694, -.0988, -.1706, -.8364, 1.8006, .0357, .0297, -.0315, 1.0018 }, { .81563, .04715, .13722, .37911, .57694, .044, -.01226, .01674, .99552 } };
static const Cat C97 = { { .8951, .2664, -.1614, -.7502, 1.7135, .0367, .0389, -.0685, 1.0296 }, { .98699, -.14705, .15996, .43231, .51836, .04929, -.00853, .04004, .96849 } };
static const Cat C2000 = { { .7982, .3389, -.1371, -.5918, 1.5512, .0406, .0008, .0239, .9753 }, { 1.07645, -.23766, .16121, .41096, .55434, .03469, -.01095, -.01339, 1.02434 } };
static const Cat C02 = { { .7328, .4296, -.1624, -.7036, 1.6975, .0061, .003, .0136, .9834 }, { 1.09612, -.27887, .18275, .45437, .47353, .0721, -.00963, -.0057, 1.01533 } };
struct View { double f, la, lr; };
struct Method { const char* name; const Cat* cat; int kind; }; // kind: 0 simplified, 1 Bradford, 2 CMCCAT97, 3 CMCCAT2000, 4 CAT02
static const Method methods[] = { { "von_kries", &VK, 0 }, { "bradford", &BFD, 1 }, { "bradford_simplified", &BFD, 0 }, { "xyz_scale", &SC, 0 }, { "sharp", &SHARP, 0 }, { "cmccat97_simplified", &C97, 0 }, { "cmccat97", &C97, 2 },
	{ "cmccat2000_simplified", &C2000, 0 }, { "cmccat2000", &C2000, 3 }, { "cat02_simplified", &C02, 0 }, { "cat02", &C02, 4 } };
static double degree(int kind, const View& v) {
	double d = kind == 2 ? v.f - v.f / (1 + 2 * std::pow(v.la, .25) + v.la * v.la / 300) : kind == 3 ? v.f * (.08 * std::log10(.5 * (v.la + v.lr)) + .76 - .45 * (v.la - v.lr) / (v.la + v.lr)) : v.f * (1 - 1 / 3.6 * std::exp((-v.la - 42) / 92));
	return clampd(d, 0, 1);
}
static V adapt(const Method& m, const V& xyz, const double* ws, const double* wt, const View& v) {
	V s = mulv(m.cat->M, V{ ws[0], ws[1], ws[2] }), t = mulv(m.cat->M, V{ wt[0], wt[1], wt[2] }), c = mulv(m.cat->M, xyz), r(3);
	for (auto& x : c) x = nz(x, std::fabs(xyz[0]) + std::fabs(xyz[1]) + std::fabs(xyz[2]));
	if (m.kind == 0) for (int i = 0; i < 3; ++i) r[i] = c[i] * t[i] / s[i];
	else if (m.kind == 1 || m.kind == 2) {
		for (auto& x : s) x /= ws[1]; for (auto& x : t) x /= wt[1];
		double Y = xyz[1] == 0 ? 1 : xyz[1], p = std::pow(s[2] / t[2], .0834), d = m.kind == 1 ? 1 : degree(2, v), b;
		for (auto& x : c) x /= Y;
		for (int i = 0; i < 2; ++i) r[i] = Y * c[i] * (d * t[i] / s[i] + 1 - d);
		b = m.kind == 1 ? t[2] * std::pow(std::fabs(c[2] / s[2]), p) : std::pow(std::fabs(c[2]), p) * (d * t[2] / std::pow(s[2], p) + 1 - d);
		r[2] = Y * (c[2] < 0 ? -b : b);
	}
	else { double d = degree(m.kind, v), y = m.kind == 3 ? ws[1] / wt[1] : 1; for (int i = 0; i < 3; ++i) r[i] = c[i] * (d * y * t[i] / s[i] + 1 - d); }
	double u = std::fabs(r[0]) + std::fabs(r[1]) + std::fabs(r[2]); V o = mulv(m.cat->Mi, r); for (auto& x : o) x = nz(x, u);
	return o;
}
static bool same_value(color_base* a, color_base* b) { return type_of(a) == type_of(b) && comps(a) == comps(b) && a->alpha() == b->alpha() && a->get_rgb_color_space() == b->get_rgb_color_space(); }
static RS with_white(const RS& s, white_point* w) { RS r = s; auto t = w->get_tristimulus(); auto q = w->get_chromaticity_coordinate(); for (int i = 0; i < 3; ++i) r.W[i] = t[i]; r.wx = q[0]; r.wy = q[1]; r.derive(); return r; }
static std::string space_error(rgb_color_space_definition* d, const Space& sp, white_point* w) {
	if (!d) return "no rgb space";
	if (d == sp.def && sp.def->get_white_point()->get_tristimulus() != w->get_tristimulus()) return "the space of the input, with its white point";
	auto t = d->get_white_point()->get_tristimulus(), u = w->get_tristimulus();
	for (int i = 0; i < 3; ++i) if (std::fabs(t[i] - u[i]) > 1e-6) return "a space with another white point than the target's";
	auto q = sp.def;
	if (d->get_red_chromaticity_coordinate() != q->get_red_chromaticity_coordinate() || d->get_green_chromaticity_coordinate() != q->get_green_chromaticity_coordinate() || d->get_blue_chromaticity_coordinate() != q->get_blue_chromaticity_coordinate()) return "a space with other primaries";
	for (float x : { .001f, .01f, .05f, .2f, .5f, .9f }) if (d->get_gamma_curve()->gamma_correction(x) != q->get_gamma_curve()->gamma_correction(x) || d->get_gamma_curve()->inverse_gamma_correction(x) != q->get_gamma_curve()->inverse_gamma_correction(x)) return "a space with another gamma curve";
	return "";
}
static white_point* target(Ctx& c, const Space* sp = nullptr, bool* own = nullptr) {
	if (sp && (*own = c.rng.chance(.12))) { // hardly another white than the source's, or not another at all
		auto t = sp->def->get_white_point()->get_tristimulus(); c.event("target close to the source");
		switch (c.rng.below(4)) {
		case 0: return new white_point(*sp->def->get_white_point());
		case 1: { float f = (float)c.rng.range(.6, 1); return new white_point(t[0] * f, t[1] * f, t[2] * f); }
		case 2: { int i = c.rng.below(3); t[i] *= (float)(1 + (c.rng.chance(.5) ? 1 : -1) * std::pow(10, c.rng.range(-5, -1.5))); break; }
		default: for (auto& q : t) q *= (float)(1 + c.rng.range(-1, 1) * std::pow(10, c.rng.range(-5, -1.5)));
		}
		return new white_point(t[0], t[1], t[2]);
	}
	static std::vector<white_point*>* pool = nullptr; // the library keeps references
	if (!pool) { pool = new std::vector<white_point*>; white_point_presets p; for (auto& w : wps()) pool->push_back((p.*w.fn)());
		for (int i = 0; i < 24; ++i) { double x = fl_(c.rng.range(.27, .46)), y = fl_(c.rng.range(.29, .42)), Y = i < 16 ? 1 : fl_(c.rng.range(.6, 1)); pool->push_back(i & 1 && Y == 1 ? new white_point((float)x, (float)y) : new white_point((float)(x / y * Y), (float)Y, (float)((1 - x - y) / y * Y), (float)x, (float)y)); } }
	// one white point object is overwritten from case to case: nothing may be remembered by its address
	static white_point* living = nullptr; static bool again = false; again = c.rng.chance(again ? .5 : .1);
	if (again) { white_point* p = c.rng.pick(*pool); if (!living) living = new white_point(*p); else *living = *p; return living; }
	return c.rng.pick(*pool);
}
static bool good(const RS& r) { for (int j = 0; j < 3; ++j) { double s = r.M[j] + r.M[3 + j] + r.M[6 + j]; if (!(s > .03)) return false; } return true; } // no primary is needed in negative or vanishing amount

PROPERTY(C23) {
	c.rule = "a case is one of 11 adaptation methods on one colour of any type from one white point to another with one choice of viewing conditions, compared with a double precision model of the transform; directed: the source white itself, there and back, the same white; distinct = (method, type, source space, target white, 8-bucket colour)";
	auto& ops = adapt_ops();
	int n = c.scale(44000, 2200000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P; c.tick("adaptation");
		int i = c.rng.below(11); auto& m = methods[i]; auto& op = ops[i]; bool own_w; white_point* w = target(c, &sp, &own_w); std::unique_ptr<white_point> keep_w(own_w ? w : nullptr); std::string site = m.name; std::set<rgb_color_space_definition*> defs;
		RS dst = with_white(*sp.ref, w); if (!good(dst)) { c.event("skipped: target white outside of the primaries"); continue; }
		View v; v.f = fl_(c.rng.chance(.3) ? (const double[]){ 1, .9, .8, 0 }[c.rng.below(4)] : c.rng.range(-.2, 1.4)); v.la = fl_(c.rng.chance(.3) ? 100 : std::pow(10, c.rng.range(-1, 3))); v.lr = fl_(c.rng.chance(.5) ? v.la : std::pow(10, c.rng.range(-1, 3)));
		bool full = c.rng.chance(.15); if (full) { v.f = 1; v.la = v.lr = fl_(1e6); }
		int what = c.rng.below(20); T t = (T)c.rng.below(NT);
		auto run = [&](color_base* x, white_point* q) { return P(op.fn(x, q, (float)v.f, (float)v.la, (float)v.lr)); };
		color_base* a = what == 0 ? P(make(t == RGBD ? RGBD : XYZ_, t == RGBD ? V{ 1, 1, 1 } : V{ fl_(sp.ref->W[0]), fl_(sp.ref->W[1]), fl_(sp.ref->W[2]) }, gen_alpha(c, XYZ_), sp.def)) : P(gen_color(c, t, sp)); t = type_of(a);
		auto desc = [&] { return sfmt("%s of %s in %s to white %.6g,%.6g,%.6g (f=%.6g La=%.6g Lr=%.6g)", m.name, show(a).c_str(), sp.name.c_str(), dst.W[0], dst.W[1], dst.W[2], v.f, v.la, v.lr); };
		guarded2(c, P, sp, what == 0 ? nullptr : a, nullptr, site, desc, [&] {
			std::string before = snapshot(sp.def);
			if (what == 1) { // nothing to adapt
				color_base* r = run(a, sp.def->get_white_point()); c.event(site + " to the same white");
				if (!r || !same_value(r, a)) c.fail(site + " to the same white", "%s -> %s", show(a).c_str(), r ? show(r).c_str() : "null");
				return;
			}
			color_base* r = run(a, w);
			if (!r) { c.fail(site, "%s is null", desc().c_str()); return; }
			if (r->get_rgb_color_space() != sp.def) defs.insert(r->get_rgb_color_space());
			if (type_of(r) != t) { c.fail(site + " type", "%s: %s", desc().c_str(), show(r).c_str()); return; }
			std::string se = space_error(r->get_rgb_color_space(), sp, w); c.event(site + " space");
			if (!se.empty()) { c.fail(site + " space", "%s: the result has %s", desc().c_str(), se.c_str()); return; }
			if (snapshot(sp.def) != before) c.fail(site + " input space", "%s changed the space of its input", desc().c_str());
			double lo, hi, al = ref_alpha(t, XYZ_, a->alpha()); g_round_bias = -6e-3; lo = ref_alpha(XYZ_, t, al); g_round_bias = 6e-3; hi = ref_alpha(XYZ_, t, al); g_round_bias = 0;
			if (is_true(t)) { lo = std::min(lo, (double)a->alpha()); hi = std::max(hi, (double)a->alpha()); }
			if (!(r->alpha() >= lo - 2e-6 * alpha_max(t) && r->alpha() <= hi + 2e-6 * alpha_max(t))) c.fail(site + " alpha", "%s: %s", desc().c_str(), show(r).c_str());
			V x = comps(t == XYZ_ ? a : P(to_x(a, XYZ_)));
			if (x[1] == 0 && (x[0] != 0 || x[2] != 0) && (m.kind == 1 || m.kind == 2)) { // no luminance, but not black: undefined, only finite
				c.event(site + " without luminance"); for (double q : comps(r)) if (!(q == q)) c.fail(site + " without luminance", "%s: %s", desc().c_str(), show(r).c_str()); return; }
			auto ref = [&](const V& q) { return ref_conv(XYZ_, t, clamp_to(XYZ_, adapt(m, q, sp.ref->W, dst.W, v)), dst); };
			Close cl = close(comps(r), ref, x, comps_of(XYZ_), comps_of(t));
			if (cl.ill) ++c.illcond;
			c.event(site); if (!cl.ok) c.fail(site, "%s: %s, expected %s tol %s", desc().c_str(), show(r).c_str(), show(cl.exp).c_str(), show(cl.tol).c_str());
			bool complete = m.kind < 2 || full;
			if (what == 0 && complete) { // white to white, whatever the transform
				double sc = m.kind == 0 || m.kind == 4 ? 1 : sp.ref->W[1] / dst.W[1]; // these keep the luminance
				if (t != RGBD || sc == 1) { c.event(site + " white"); V g = comps(r); for (int j = 0; j < 3; ++j) if (!(std::fabs(g[j] - (t == RGBD ? 1 : clampd(sc * dst.W[j], comps_of(t)[j].lo, comps_of(t)[j].hi))) <= 5e-4)) { c.fail(site + " white", "%s: %s", desc().c_str(), show(r).c_str()); break; } } }
			if (m.kind == 0 && what < 12) { // and back
				color_base* q = run(r, sp.def->get_white_point()); if (q && q->get_rgb_color_space() != sp.def) defs.insert(q->get_rgb_color_space());
				V xm = comps(type_of(r) == XYZ_ ? r : P(to_x(r, XYZ_))), fx = adapt(m, x, sp.ref->W, dst.W, v); bool lost = false;
				for (const V* q : { &x, &xm }) if ((*q)[1] < 2e-3 * ((*q)[0] + (*q)[2])) lost = true; // far outside of any gamut: the forms relative to the luminance lose the other coordinates
				for (int j = 0; j < 3; ++j) if (std::fabs(xm[j] - fx[j]) > 1e-4 * (1 + std::fabs(fx[j]))) lost = true; // by the range of the type in between
				for (auto y : { r, q }) { auto& cr = comps_of(t); V h = comps(y); for (size_t j = 0; j < cr.size(); ++j) if (cr[j].hue ? h[j] > 358.5 : h[j] <= cr[j].lo && (h[j] < comps(a)[j] || h[j] < 0) || h[j] >= cr[j].hi && (h[j] > comps(a)[j] || is_cie(t))) lost = true; } // hues end at 359, other components at their bounds
				if (!lost && !is_true(t) && t != GREYD) { V xq = comps(type_of(q) == XYZ_ ? q : P(to_x(q, XYZ_))); c.event(site + " and back"); double big = std::max(1., std::max(x[0], std::max(x[1], x[2])));
					for (int j = 0; j < 3; ++j) if (!(std::fabs(xq[j] - x[j]) <= 3e-3 * big)) { c.fail(site + " and back", "%s: %s, back %s", desc().c_str(), show(r).c_str(), show(q).c_str()); break; } }
			}
			c.cover(site + TNAME[t] + sp.name + sfmt("%g", dst.W[0]), bucket(comps(a), comps_of(t), 8)); c.sample("%s: %s", desc().c_str(), show(r).c_str());
		}, [&] { switch (c.rng.below(4)) { case 0: v.f = fl_(c.rng.range(0, 1.2)); break; case 1: v.la = fl_(std::pow(10, c.rng.range(-1, 3))); break; case 2: v.lr = fl_(std::pow(10, c.rng.range(-1, 3))); break; default: do { w = target(c); dst = with_white(*sp.ref, w); } while (!good(dst)); } full = false; });
		{ auto own = P.own; for (auto x : own) delete x; P.own.clear(); } // before the spaces they refer to
		for (auto d : defs) delete d;
	}
	for (double l : { 0., 1., 20., 100., 318.31, 5000. }) for (double b : { 0., 20., 100., 55.5 }) { double g = chromatic_adaptation::calculate_adapting_luminance((float)l, (float)b); c.event("adapting luminance"); c.tick("adapting luminance"); if (!(std::fabs(g - l * b / 100) <= 1e-5 * (1 + l * b / 100))) c.fail("adapting luminance", "%.9g, %.9g -> %.9g", l, b, g);
		if (b == 100) { double h = chromatic_adaptation::calculate_adapting_luminance((float)l); if (!(std::fabs(h - l) <= 1e-5 * (1 + l))) c.fail("adapting luminance", "%.9g -> %.9g", l, h); } }
}
