// C13 Porter-Duff, C14 component-wise blend modes, C15 HCY blend modes.
#include "ref.h"
#include "gpd.h"
typedef std::function<double(double, double)> F2;

// The general compositor: regions source only / destination only / both.
static V composite(const V& s, double as, const V& d, double ad, bool us, bool ud, bool ub, const F2& f) {
	double S = as * (1 - ad), D = ad * (1 - as), B = as * ad, a = (us ? S : 0) + (ud ? D : 0) + (ub ? B : 0);
	V r(4, 0.); r[3] = a;
	if (a == 0) return r;
	for (int i = 0; i < 3; ++i) {
		double x = (us ? S * s[i] : 0) + (ud ? D * d[i] : 0) + (ub ? nz(B * f(s[i], d[i]), B) : 0);
		r[i] = clampd(nz(x, a) / a, 0, 1);
	}
	return r;
}
struct Mode { const char* name; F2 f; };
static double hard(double s, double d) { return s <= .5 ? 2 * s * d : d + (2 * s - 1) - d * (2 * s - 1); }
static const std::vector<Mode>& modes() {
	static const std::vector<Mode> v = {
		{ "normal", [](double s, double) { return s; } },
		{ "multiply", [](double s, double d) { return s * d; } },
		{ "screen", [](double s, double d) { return s + d - s * d; } },
		{ "overlay", [](double s, double d) { return hard(d, s); } },
		{ "darken", [](double s, double d) { return std::min(s, d); } },
		{ "lighten", [](double s, double d) { return std::max(s, d); } },
		{ "color_dodge", [](double s, double d) { return d <= 0 ? 0. : s >= 1 ? 1. : std::min(1., d / (1 - s)); } },
		{ "linear_dodge", [](double s, double d) { return s + d; } },
		{ "color_burn", [](double s, double d) { return d >= 1 ? 1. : s <= 0 ? 0. : 1 - std::min(1., (1 - d) / s); } },
		{ "linear_burn", [](double s, double d) { return s + d - 1; } },
		{ "hard_light", hard },
		{ "soft_light", [](double s, double d) { return s <= .5 ? d * (s + .5) : 1 - (1 - d) * (1 - (s - .5)); } },
		{ "vivid_light", [](double s, double d) { return s <= .5 ? (d >= 1 ? 1. : s <= 0 ? 0. : 1 - std::min(1., (1 - d) / (2 * s))) : (d <= 0 ? 0. : s >= 1 ? 1. : std::min(1., d / (2 * (1 - s)))); } },
		{ "linear_light", [](double s, double d) { return d + 2 * s - 1; } },
		{ "pin_light", [](double s, double d) { return s > .5 ? std::max(d, 2 * (s - .5)) : std::min(d, 2 * s); } },
		{ "hard_mix", [](double s, double d) { return s < 1 - d ? 0. : 1.; } },
		{ "difference", [](double s, double d) { return std::fabs(s - d); } },
		{ "subtract", [](double s, double d) { return s - d; } },
		{ "divide", [](double s, double d) { return d <= 0 ? 0. : s <= 0 ? 1. : d / s; } },
		{ "plus_lighter", [](double s, double d) { return s + d; } },
		{ "plus_darker", [](double s, double d) { return s + d - 1; } },
		{ "exclusion", [](double s, double d) { return s + d - 2 * s * d; } },
	};
	return v;
}
struct PD { const char* name; bool s, d, b; int f; }; // f: 0 none, 1 source, 2 destination
static const PD pds[] = { { "src", 1, 0, 1, 1 }, { "dest", 0, 1, 1, 2 }, { "atop", 0, 1, 1, 1 }, { "dest_atop", 1, 0, 1, 2 }, { "over", 1, 1, 1, 1 }, { "dest_over", 1, 1, 1, 2 },
	{ "in", 0, 0, 1, 1 }, { "dest_in", 0, 0, 1, 2 }, { "out", 1, 0, 0, 0 }, { "dest_out", 0, 1, 0, 0 }, { "x_or", 1, 1, 0, 0 }, { "clear", 0, 0, 0, 0 } };
static F2 pick_of(int f) { return f == 0 ? F2([](double, double) { return 0.; }) : f == 1 ? F2([](double s, double) { return s; }) : F2([](double, double d) { return d; }); }

// components and opacity as one vector, opacity always 0..1 in the model
static V with_alpha(color_base* c) { V v = comps(c); v.push_back(c->alpha()); return v; }
static std::vector<Comp> ranges(T t) { auto r = comps_of(t); r.push_back(Comp{ 0, alpha_max(t), false, alpha_max(t) }); return r; }
struct Pair {
	color_base* s, * d; T ts, td; const Space* sp; V in; std::vector<Comp> rg;
	Pair(color_base* a, color_base* b, const Space& p) : s(a), d(b), ts(type_of(a)), td(type_of(b)), sp(&p) {
		in = with_alpha(a); for (double x : with_alpha(b)) in.push_back(x); rg = ranges(ts); for (auto& r : ranges(td)) rg.push_back(r);
	}
	// rgb and opacity of both, from a (perturbed) input vector
	void split(const V& v, V& a, double& aa, V& b, double& ab) const {
		size_t n = comps_of(ts).size();
		a = ref_conv(ts, RGBD, V(v.begin(), v.begin() + n), *sp->ref); aa = v[n] / alpha_max(ts);
		b = ref_conv(td, RGBD, V(v.begin() + n + 1, v.end() - 1), *sp->ref); ab = v.back() / alpha_max(td);
	}
	// the same colours as the library itself converts them, for colours next to a pole or jump of the conversion to RGB
	// (whether that conversion is right is decided elsewhere)
	V converted() const {
		V r; for (color_base* q : { s, d }) { T t = q == s ? ts : td; color_base* x = t == RGBD ? q : color_converter::convertTo(q, color_type::RGB_DEEP); for (double y : comps(x)) r.push_back(y); r.push_back(q->alpha() / alpha_max(t)); if (x != q) delete x; }
		return r;
	}
	static std::vector<Comp> converted_ranges() { auto r = ranges(RGBD), o = r; o.insert(o.end(), r.begin(), r.end()); return o; }
	// result of the model in the type of the source; transparent results have unspecified colour
	V out(const V& rgba) const {
		V c = ref_conv(RGBD, ts, V(rgba.begin(), rgba.begin() + 3), *sp->ref);
		c.push_back(is_true(ts) ? ref_alpha(RGBD, RGBT, clampd(rgba[3], 0, 1)) : clampd(rgba[3], 0, 1));
		return c;
	}
};
static bool check(Ctx& c, const std::string& site, const Pair& p, color_base* r, const F2& f, bool us, bool ud, bool ub, bool report = true) {
	std::string fl = sfmt(" flags %d%d%d", us, ud, ub);
	if (!r) { if (report) c.fail(site, "null result for %s / %s", show(p.s).c_str(), show(p.d).c_str()); return false; }
	if (type_of(r) != p.ts || r->get_rgb_color_space() != p.sp->def) { if (report) c.fail(site + " type", "%s / %s -> %s: not the type and space of the source", show(p.s).c_str(), show(p.d).c_str(), show(r).c_str()); return false; }
	auto ref = [&](const V& v) { V a, b; double aa, ab; p.split(v, a, aa, b, ab); return p.out(composite(a, aa, b, ab, us, ud, ub, f)); };
	V got = with_alpha(r);
	auto orr = ranges(p.ts);
	Close k = close(got, ref, p.in, p.rg, orr);
	if (k.ill) ++c.illcond;
	bool transparent = k.exp.back() <= 2e-6 * alpha_max(p.ts);
	if (!k.ok && (p.ts != RGBD || p.td != RGBD)) {
		auto ref2 = [&](const V& v) { return p.out(composite(V(v.begin(), v.begin() + 3), v[3], V(v.begin() + 4, v.begin() + 7), v[7], us, ud, ub, f)); };
		Close k2 = close(got, ref2, p.converted(), Pair::converted_ranges(), orr);
		if (k2.ok) { k.ok = true; c.event("matches from the converted colours on"); }
	}
	bool ok = k.ok;
	if (transparent) ok = std::fabs(got.back() - k.exp.back()) <= std::max(k.tol.back(), 2e-6 * alpha_max(p.ts));
	if (report) {
		c.event(site + (transparent ? " transparent" : ""));
		if (!ok) c.fail(site, "%s in %s: %s / %s%s -> %s expected %s tol %s", site.c_str(), p.sp->name.c_str(), show(p.s).c_str(), show(p.d).c_str(), fl.c_str(), show(r).c_str(), show(k.exp).c_str(), show(k.tol).c_str());
	}
	return ok;
}
static void reject(Ctx& c, const std::string& site, const std::function<void()>& f) {
	Outcome o = attempt(f); c.event("rejection"); c.tick("rejection");
	if (o.k != Outcome::INVALID) c.fail(site + " rejection", "%s for an invalid argument: %s", o.threw() ? "wrong exception" : "no exception", o.what.c_str());
}
static void rejections(Ctx& c, const std::vector<NamedBlend>& ops) {
	auto& ps = presets();
	for (auto& op : ops) {
		Pool P; T t = (T)c.rng.below(NT), u = (T)c.rng.below(NT); const Space& a = c.rng.pick(ps); const Space& b = c.rng.pick(ps);
		color_base* x = P(gen_color(c, t, a)); color_base* y = P(gen_color(c, u, b));
		reject(c, op.name, [&] { P(op.fn(nullptr, y, true, true)); });
		reject(c, op.name, [&] { P(op.fn(x, nullptr, true, true)); });
		if (a.def != b.def) reject(c, op.name, [&] { P(op.fn(x, y, true, true)); });
	}
}
static Space shared_space(Ctx& c) { return pick_space(c, true); }
static T gen_type(Ctx& c) { return c.rng.chance(.5) ? RGBD : (T)c.rng.below(NT); }

// A grid on which single precision arithmetic is exact: every branch border of every mode, compared without slack.
static const double G5[] = { 0, .25, .5, .75, 1 };
static const double TINY[] = { 0, 1e-4, .25, .4999, .5, .5001, .75, .9999, 1 };
static bool burn_inverse_known(Ctx& c, const std::string& name, color_base* a, color_base* b, color_base* r) {
	if (name != "color_burn") return false;
	c.event("color_burn inverted"); c.knownf("color-burn-inverted", "%s / %s -> %s", show(a).c_str(), show(b).c_str(), show(r).c_str()); return true;
}
static F2 clamped(const F2& f);
static double burn_inverse(double s, double d);
static void exact_grid(Ctx& c, const Mode& m, const std::function<color_base*(color_base*, color_base*, bool, bool)>& fn, uint64_t& id) {
	const Space& sp = presets()[0]; std::string name = m.name;
	auto exact = [](double x) { return x == 0 || x == .25 || x == .5 || x == .75 || x == 1; };
	for (double s : TINY) for (double d : TINY) {
		if (!c.mine(id++)) continue;
		double sf = fl_(s), df = fl_(d); Pool P;
		color_base* a = P(make(RGBD, V{ sf, df, sf }, 1, sp.def)); color_base* b = P(make(RGBD, V{ df, sf, df }, 1, sp.def));
		c.tick("exact grid");
		guarded(c, name, [&] { return show(a) + " / " + show(b); }, [&] {
			color_base* r = P(fn(a, b, true, true)); c.event(name + " border grid");
			auto dev = [&](const F2& f) { double e[3] = { f(sf, df), f(df, sf), f(sf, df) }, w = 0; V v = comps(r); for (int i = 0; i < 3; ++i) { double q = std::fabs(v[i] - clampd(e[i], 0, 1)); if (!(q <= w)) w = q; } return w; };
			if (r->alpha() != 1) c.fail(name + " border", "alpha %.9g of two opaque colours", (double)r->alpha());
			if (exact(s) && exact(d)) { // no rounding anywhere
				double w = dev(m.f); if (!(w <= 1.2e-6)) if (!(dev(burn_inverse) <= 1.2e-6 && burn_inverse_known(c, name, a, b, r))) c.fail(name + " border", "%s / %s -> %s, off by %.9g", show(a).c_str(), show(b).c_str(), show(r).c_str(), w);
			} else { Pair p(a, b, sp);
				if (!check(c, name, p, r, m.f, true, true, true, false) && !(name == "color_burn" && check(c, name, p, r, burn_inverse, true, true, true, false) && burn_inverse_known(c, name, a, b, r))) check(c, name, p, r, m.f, true, true, true); }
			c.cover(name + " grid", (uint64_t)(s * 1e5) * 1000003 + (uint64_t)(d * 1e5));
		});
	}
	// and with quarter opacities: areas and sums are exact, the division by the resulting alpha is correctly rounded
	for (double s : G5) for (double d : G5) for (double as : G5) for (double ad : G5) for (int fl = 0; fl < 4; ++fl) {
		if (!c.mine(id++)) continue;
		bool us = fl & 1, ud = fl & 2; Pool P;
		color_base* a = P(make(RGBD, V{ s, d, s }, as, sp.def)); color_base* b = P(make(RGBD, V{ d, s, s }, ad, sp.def));
		c.tick("exact grid");
		guarded(c, name, [&] { return show(a) + " / " + show(b); }, [&] {
			color_base* r = P(fn(a, b, us, ud)); c.event(name + " opacity grid"); V v = comps(r), e;
			auto good = [&](const F2& f) { e = composite(V{ s, d, s }, as, V{ d, s, s }, ad, us, ud, true, f); if (std::fabs(r->alpha() - e[3]) > 1e-6) return false; if (e[3] > 0) for (int i = 0; i < 3; ++i) if (!(std::fabs(v[i] - e[i]) <= 2e-6)) return false; return true; };
			if (!good(m.f) && !good(clamped(m.f)) && !(name == "color_burn" && good(burn_inverse) && burn_inverse_known(c, name, a, b, r))) { good(m.f); c.fail(name + " opacity grid", "%s / %s flags %d%d -> %s expected %s", show(a).c_str(), show(b).c_str(), us, ud, show(r).c_str(), show(e).c_str()); }
			c.cover(name + " opacity", ((((uint64_t)(s * 4) * 5 + (uint64_t)(d * 4)) * 5 + (uint64_t)(as * 4)) * 5 + (uint64_t)(ad * 4)) * 4 + fl);
		});
	}
}

PROPERTY(C13) {
	c.rule = "a case is one Porter-Duff operation (12 named ones, the general one with any region flags and function) on one pair of colours of any types and opacities, compared with a double precision compositor, plus an exact grid of quarter values and opacities; distinct = (operation, type pair, 8-bucket opacities, 8-bucket colours)";
	if (!gpd_available) c.event("general operation not reachable in this tree");
	if (c.chunk == 0) { rejections(c, pd_ops()); auto& ps = presets();
		if (gpd_available) { Pool P; auto x = new rgb_deepcolor(.1f, 1.f, ps[0].def), y = new rgb_deepcolor(.1f, 1.f, ps[1].def); P(x); P(y); auto f = [](float s, float) { return s; };
			reject(c, "general", [&] { P(gpd(nullptr, x, 1, 1, 1, f)); }); reject(c, "general", [&] { P(gpd(x, nullptr, 1, 1, 1, f)); }); reject(c, "general", [&] { P(gpd(x, y, 1, 1, 1, f)); }); }
	}
	uint64_t id = 0;
	const Space& s0 = presets()[0];
	for (auto& op : pds) { // exact grid
		const NamedBlend* nb = nullptr; for (auto& b : pd_ops()) if (!strcmp(b.name, op.name)) nb = &b;
		for (double s : G5) for (double d : G5) for (double as : G5) for (double ad : G5) {
			if (!c.mine(id++)) continue;
			Pool P; color_base* a = P(make(RGBD, V{ s, d, s }, as, s0.def)); color_base* b = P(make(RGBD, V{ d, s, s }, ad, s0.def)); c.tick("exact grid");
			guarded(c, op.name, [&] { return show(a) + " / " + show(b); }, [&] {
				color_base* r = P(nb->fn(a, b, true, true)); V e = composite(V{ s, d, s }, as, V{ d, s, s }, ad, op.s, op.d, op.b, pick_of(op.f)), v = comps(r); c.event(std::string(op.name) + " grid");
				bool bad = std::fabs(r->alpha() - e[3]) > 1e-6; if (e[3] > 0) for (int i = 0; i < 3; ++i) if (!(std::fabs(v[i] - e[i]) <= 2e-6)) bad = true;
				if (bad) c.fail(std::string(op.name) + " grid", "%s / %s -> %s expected %s", show(a).c_str(), show(b).c_str(), show(r).c_str(), show(e).c_str());
				c.cover(std::string(op.name) + " grid", (((uint64_t)(s * 4) * 5 + (uint64_t)(d * 4)) * 5 + (uint64_t)(as * 4)) * 5 + (uint64_t)(ad * 4));
			});
		}
	}
	int n = c.scale(60000, 3000000);
	for (int k = 0; k < n; ++k) {
		Space sp = shared_space(c); Pool P; c.tick("porter duff");
		if (gpd_available && c.rng.chance(.3)) {
			color_base* a = P(gen_color(c, RGBD, sp)); color_base* b = c.rng.chance(.05) ? a : gen_partner(c, P, a, RGBD, sp);
			bool us = c.rng.chance(.5), ud = c.rng.chance(.5), ub = c.rng.chance(.7); int w = ub ? c.rng.below(6) : 0; double q = c.rng.range(-1, 2);
			F2 f = w == 0 ? pick_of(ub ? 1 + c.rng.below(2) : 0) : w == 1 ? F2([](double s, double d) { return s * d; }) : w == 2 ? F2([q](double s, double d) { return q * s + (1 - q) * d; }) : w == 3 ? F2([q](double, double) { return q; }) : w == 4 ? F2([](double s, double d) { return (s + d) * 3; }) : F2([](double s, double d) { return s - 2 * d; });
			guarded2(c, P, sp, a, b, "general", [&] { return show(a) + " / " + show(b); }, [&] {
				int calls = 0; color_base* r = P(gpd(static_cast<rgb_deepcolor*>(a), static_cast<rgb_deepcolor*>(b), us, ud, ub, [&](float s, float d) { ++calls; return (float)f(s, d); }));
				Pair p(a, b, sp); check(c, sfmt("general %d%d%d", us, ud, ub), p, r, f, us, ud, ub); (void)calls;
				c.cover(sfmt("general %d%d%d %d", us, ud, ub, w), bucket(p.in, p.rg, 8));
			});
		} else {
			T ts = gen_type(c), td = gen_type(c); int i = c.rng.below(12); auto& op = pds[i]; const NamedBlend* nb = nullptr; for (auto& b : pd_ops()) if (!strcmp(b.name, op.name)) nb = &b;
			color_base* a = P(gen_color(c, ts, sp)); color_base* b = c.rng.chance(.05) ? a : gen_partner(c, P, a, td, sp);
			guarded2(c, P, sp, a, b, op.name, [&] { return show(a) + " / " + show(b); }, [&] {
				color_base* r = P(nb->fn(a, b, true, true)); Pair p(a, b, sp); check(c, op.name, p, r, pick_of(op.f), op.s, op.d, op.b);
				c.cover(std::string(op.name) + TNAME[ts] + TNAME[type_of(b)], bucket(p.in, p.rg, 8)); c.sample("%s: %s / %s -> %s", op.name, show(a).c_str(), show(b).c_str(), show(r).c_str());
			});
		}
	}
}

// Published results of a mode, as acceptable alternatives: the blend function as it is, or clamped to [0,1] before it is
// composited (the published formulas of linear dodge, burn, light, divide, subtract differ in this).
static F2 clamped(const F2& f) { return [f](double s, double d) { return clampd(f(s, d), 0, 1); }; }
static double burn_inverse(double s, double d) { return d >= 1 ? 0. : s <= 0 ? 1. : std::min(1., (1 - d) / s); }
static void check_mode(Ctx& c, const Mode& m, const Pair& p, color_base* r, bool us, bool ud) {
	if (check(c, m.name, p, r, m.f, us, ud, true, false) || !r || type_of(r) != p.ts || r->get_rgb_color_space() != p.sp->def) { check(c, m.name, p, r, m.f, us, ud, true); return; }
	if (check(c, m.name, p, r, clamped(m.f), us, ud, true, false)) { c.event(std::string(m.name) + " clamped first"); return; }
	if (!strcmp(m.name, "color_burn") && check(c, m.name, p, r, burn_inverse, us, ud, true, false)) { c.event("color_burn inverted"); c.knownf("color-burn-inverted", "%s / %s -> %s", show(p.s).c_str(), show(p.d).c_str(), show(r).c_str()); return; }
	check(c, m.name, p, r, m.f, us, ud, true);
}

PROPERTY(C14) {
	c.rule = "a case is one blend mode (22 modes, custom functions, dissolve) on one pair of colours of any types, opacities and region flags, compared with a double precision blend model; plus exact grids of branch borders and opacities in which no slack is given; distinct = (mode, flags, type pair, 8-bucket colours and opacities)";
	if (c.chunk == 0) { rejections(c, blend_ops()); std::vector<NamedBlend> cu = { { "custom", [](color_base* s, color_base* d, bool a, bool b) { return color_blend::custom_componentwise_blend(s, d, a, b, [](float x, float) { return x; }); } } }; rejections(c, cu); }
	auto op = [](const char* n) -> const NamedBlend& { for (auto& b : blend_ops()) if (!strcmp(b.name, n)) return b; abort(); };
	uint64_t id = 0;
	for (auto& m : modes()) { auto fn = op(m.name).fn; exact_grid(c, m, fn, id); }
	int n = c.scale(88000, 4400000);
	for (int k = 0; k < n; ++k) {
		Space sp = shared_space(c); Pool P; c.tick("blend");
		T ts = gen_type(c), td = gen_type(c); bool us = c.rng.chance(.6), ud = c.rng.chance(.6);
		color_base* a = P(gen_color(c, ts, sp)); color_base* b = c.rng.chance(.05) ? a : gen_partner(c, P, a, td, sp);
		if (c.rng.chance(.12)) {
			double q = c.rng.range(-2, 2), z = c.rng.range(-.5, 1); F2 f = [q, z](double s, double d) { return q * s * d + z; };
			guarded2(c, P, sp, a, b, "custom", [&] { return show(a) + " / " + show(b); }, [&] { Pair p(a, b, sp); c.cover("custom", bucket(p.in, p.rg, 8)); check(c, "custom", p, P(color_blend::custom_componentwise_blend(a, b, us, ud, [&](float s, float d) { return (float)f(s, d); })), f, us, ud, true); });
			continue;
		}
		auto& m = c.rng.pick(modes());
		guarded2(c, P, sp, a, b, m.name, [&] { return show(a) + " / " + show(b); }, [&] {
			Pair p(a, b, sp); color_base* r = P(op(m.name).fn(a, b, us, ud)); check_mode(c, m, p, r, us, ud);
			c.cover(std::string(m.name) + TNAME[ts] + TNAME[type_of(b)] + (us ? "s" : "") + (ud ? "d" : ""), bucket(p.in, p.rg, 8)); c.sample("%s: %s / %s -> %s", m.name, show(a).c_str(), show(b).c_str(), show(r).c_str());
		}, [&] { (c.rng.chance(.5) ? us : ud) ^= true; });
	}
	// dissolve: every channel is the source's or the destination's in the overlap, and both happen
	int nd = c.scale(8000, 400000); uint64_t took[2] = { 0, 0 };
	for (int k = 0; k < nd; ++k) {
		Space sp = shared_space(c); Pool P; c.tick("dissolve"); bool us = c.rng.chance(.6), ud = c.rng.chance(.6);
		T td = gen_type(c); color_base* a = P(gen_color(c, RGBD, sp)); color_base* b = gen_partner(c, P, a, td, sp);
		guarded2(c, P, sp, a, b, "dissolve", [&] { return show(a) + " / " + show(b); }, [&] {
			color_base* r = P(op("dissolve").fn(a, b, us, ud)); Pair p(a, b, sp); V got = with_alpha(r);
			c.event("dissolve");
			auto ref = [&](int f) { return [&, f](const V& v) { V x, y; double ax, ay; p.split(v, x, ax, y, ay); return p.out(composite(x, ax, y, ay, us, ud, true, pick_of(f))); }; };
			Close ks = close(got, ref(1), p.in, p.rg, ranges(RGBD), 2e-5, 3, true), kd = close(got, ref(2), p.in, p.rg, ranges(RGBD), 2e-5, 3, true);
			if (ks.exp[3] < 1e-5) { c.event("dissolve transparent"); if (!(got[3] < 3e-5)) c.fail("dissolve", "%s / %s -> %s", show(a).c_str(), show(b).c_str(), show(r).c_str()); return; }
			for (int i = 0; i < 4; ++i) {
				bool is = std::fabs(got[i] - ks.exp[i]) <= ks.tol[i], id = std::fabs(got[i] - kd.exp[i]) <= kd.tol[i];
				if (!is && !id) { c.fail("dissolve", "%s / %s flags %d%d -> %s, expected a choice of %s or %s", show(a).c_str(), show(b).c_str(), us, ud, show(r).c_str(), show(ks.exp).c_str(), show(kd.exp).c_str()); break; }
				if (is != id) { ++took[id]; c.event(is ? "dissolve took source" : "dissolve took destination"); }
			}
			c.cover("dissolve", bucket(p.in, p.rg, 8));
		});
	}
	if (took[0] + took[1] > 600 && (!took[0] || !took[1])) c.fail("dissolve choice", "source taken %llu times, destination %llu times", (unsigned long long)took[0], (unsigned long long)took[1]);
}

// HCY modes. The documented result composites like every other mode; the tree at hand ignores opacity and regions (known
// finding hcy-no-compositing): then the components are those of the overlap and the alpha is that of the source.
PROPERTY(C15) {
	c.rule = "a case is one of the hue, saturation, color and luminosity modes on one pair of colours of any types, opacities and region flags, compared with a double precision HCY model; distinct = (mode, flags, type pair, 8-bucket colours and opacities)";
	if (c.chunk == 0) rejections(c, hcy_blend_ops());
	static const int sel[4][3] = { { 0, 1, 1 }, { 1, 0, 1 }, { 0, 0, 1 }, { 1, 1, 0 } }; // 0 source, 1 destination
	int n = c.scale(48000, 2400000);
	for (int k = -8; k < n; ++k) {
		Space sp = k < 0 ? presets()[0] : shared_space(c); Pool P; c.tick("hcy blend");
		bool translucent = k < 0 || c.rng.chance(.4);
		T ts = k < 0 ? RGBD : gen_type(c), td = k < 0 ? RGBD : c.rng.chance(.3) ? HCY_ : gen_type(c); bool us = k < 0 || c.rng.chance(.7), ud = k < 0 || c.rng.chance(.7);
		V va = k < 0 ? V{ .8, .3, .1 } : gen(c, ts, sp), vb = k < 0 ? V{ .2, .3, .9 } : gen(c, td, sp);
		double aa = k < 0 ? .5 : translucent ? gen_alpha(c, ts) : alpha_max(ts), ab = k < 0 ? .25 : translucent ? gen_alpha(c, td) : alpha_max(td);
		color_base* a = P(make(ts, va, aa, sp.def)); color_base* b = c.rng.chance(.05) && k >= 0 ? a : P(make(td, vb, ab, sp.def));
		int m = k < 0 ? (k + 8) % 4 : c.rng.below(4); auto& op = hcy_blend_ops()[m]; std::string site = op.name;
		guarded2(c, P, sp, a, b, site, [&] { return show(a) + " / " + show(b); }, [&] {
			Pair p(a, b, sp); color_base* r = P(op.fn(a, b, us, ud));
			if (!r || type_of(r) != p.ts || r->get_rgb_color_space() != sp.def) { c.fail(site + " type", "%s / %s -> %s", show(a).c_str(), show(b).c_str(), show(r).c_str()); return; }
			V got = with_alpha(r); auto orr = ranges(p.ts);
			auto hcy_of = [&](const V& x, const V& y) { V hx = ref_conv(RGBD, HCY_, x, *sp.ref), hy = ref_conv(RGBD, HCY_, y, *sp.ref); V o(3); for (int i = 0; i < 3; ++i) o[i] = sel[m][i] ? hy[i] : hx[i]; return o; };
			size_t ns = comps_of(p.ts).size();
			// what the modes compute where both colours are present
			auto overlap = [&](const V& v) {
				V x = p.ts == HCY_ ? V(v.begin(), v.begin() + ns) : ref_conv(p.ts, HCY_, V(v.begin(), v.begin() + ns), *sp.ref);
				V y = p.td == HCY_ ? V(v.begin() + ns + 1, v.end() - 1) : ref_conv(p.td, HCY_, V(v.begin() + ns + 1, v.end() - 1), *sp.ref);
				V o(3); for (int i = 0; i < 3; ++i) o[i] = sel[m][i] ? y[i] : x[i];
				return o;
			};
			auto plain = [&](const V& v) { V o = ref_conv(HCY_, p.ts, overlap(v), *sp.ref); o.push_back(is_true(ts) ? ref_alpha(RGBD, RGBT, v[ns] / 255) : v[ns]); return o; };
			auto comp = [&](const V& v) {
				V x, y; double ax, ay; p.split(v, x, ax, y, ay); V rgb = ref_conv(HCY_, RGBD, overlap(v), *sp.ref);
				double S = us ? ax * (1 - ay) : 0, D = ud ? ay * (1 - ax) : 0, B = ax * ay, al = S + D + B; V o(4, 0.); o[3] = al;
				if (al > 0) for (int i = 0; i < 3; ++i) o[i] = clampd(nz(S * x[i] + D * y[i] + B * rgb[i], al) / al, 0, 1);
				return p.out(o);
			};
			Close doc = close(got, comp, p.in, p.rg, orr), cur = close(got, plain, p.in, p.rg, orr);
			if (!doc.ok && !cur.ok && (p.ts != RGBD || p.td != RGBD)) { // once more, from the library's own RGB and HCY forms on
				V in2 = p.converted(); auto rg2 = Pair::converted_ranges();
				for (color_base* q : { a, b }) { T tq = type_of(q); color_base* x = tq == HCY_ ? q : color_converter::convertTo(q, color_type::HCY); for (double y : comps(x)) in2.push_back(y); for (auto& y : comps_of(HCY_)) rg2.push_back(y); if (x != q) delete x; }
				auto over2 = [&](const V& v) { V o(3); for (int i = 0; i < 3; ++i) o[i] = v[sel[m][i] ? 11 + i : 8 + i]; return o; };
				auto plain2 = [&](const V& v) { V o = ref_conv(HCY_, p.ts, over2(v), *sp.ref); o.push_back(is_true(ts) ? ref_alpha(RGBD, RGBT, v[3]) : v[3]); return o; };
				auto comp2 = [&](const V& v) {
					V rgb = ref_conv(HCY_, RGBD, over2(v), *sp.ref); double ax = v[3], ay = v[7], S = us ? ax * (1 - ay) : 0, D = ud ? ay * (1 - ax) : 0, B = ax * ay, al = S + D + B; V o(4, 0.); o[3] = al;
					if (al > 0) for (int i = 0; i < 3; ++i) o[i] = clampd(nz(S * v[i] + D * v[4 + i] + B * rgb[i], al) / al, 0, 1);
					return p.out(o);
				};
				Close d2 = close(got, comp2, in2, rg2, orr), c2 = close(got, plain2, in2, rg2, orr);
				if (d2.ok) doc = d2; if (c2.ok) cur = c2; if (d2.ok || c2.ok) c.event("matches from the converted colours on");
			}
			if (cur.ill) ++c.illcond;
			bool transparent = doc.exp.back() <= 2e-6 * alpha_max(p.ts) && got.back() <= 4e-6 * alpha_max(p.ts);
			bool opaque = aa == alpha_max(ts) && b->alpha() == alpha_max(p.td);
			c.event(site + (opaque ? " opaque" : " translucent"));
			if (doc.ok || transparent) c.event(site + " as documented");
			else if (cur.ok && !opaque) c.knownf("hcy-no-compositing", "%s: %s / %s flags %d%d -> %s, documented %s", site.c_str(), show(a).c_str(), show(b).c_str(), us, ud, show(r).c_str(), show(doc.exp).c_str());
			else if (cur.ok) c.event(site + " as documented"); // opaque: both models denote the same colour
			else c.fail(site, "%s: %s / %s flags %d%d -> %s expected %s tol %s (or, without compositing, %s tol %s)", site.c_str(), show(a).c_str(), show(b).c_str(), us, ud, show(r).c_str(), show(doc.exp).c_str(), show(doc.tol).c_str(), show(cur.exp).c_str(), show(cur.tol).c_str());
			c.cover(site + TNAME[ts] + TNAME[type_of(b)] + (us ? "s" : "") + (ud ? "d" : ""), bucket(p.in, p.rg, 8)); c.sample("%s: %s / %s -> %s", site.c_str(), show(a).c_str(), show(b).c_str(), show(r).c_str());
			(void)hcy_of;
		}, [&] { (c.rng.chance(.5) ? us : ud) ^= true; });
	}
}
