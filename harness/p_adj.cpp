// C16 adjustments, C17 harmonies, C18 monochromatic series.
// Each result is compared with a double precision model that starts from the HSL (or RGB) components which the library
// itself assigns to the base colour (whose correctness C05 and C06 decide) and ends in the type of the base colour.
#include "ref.h"
typedef std::function<V(const V&)> Model;
typedef color_adjustments J;

struct Base { color_base* c; T t; const Space* sp; V in; double alpha; T op; };
static Base base_of(Ctx& c, Pool& P, color_base* col, const Space& sp, T op) {
	Base b; b.c = col; b.t = type_of(col); b.sp = &sp; b.op = op;
	color_base* h = b.t == op ? col : P(to_x(col, op)); b.in = comps(h); b.alpha = col->alpha(); return b;
}
// the same colour, up to the last bits which a trip through another unit of alpha or channel can cost
static bool same_value(color_base* a, color_base* b) {
	if (type_of(a) != type_of(b) || a->get_rgb_color_space() != b->get_rgb_color_space()) return false;
	V x = comps(a), y = comps(b); auto& rg = comps_of(type_of(a));
	for (size_t i = 0; i < x.size(); ++i) if (!(x[i] == y[i] || std::fabs(x[i] - y[i]) <= 1e-6 * rg[i].unit)) return false;
	return a->alpha() == b->alpha() || std::fabs(a->alpha() - b->alpha()) <= 1e-6 * alpha_max(type_of(a));
}
// got is model(components of the base) with the type, space and opacity of the base
static std::string mismatch(Ctx& c, const Base& b, color_base* got, const Model& m) {
	if (!got) return "null";
	if (type_of(got) != b.t) return "has type " + std::string(type_of(got) == NT ? "undefined" : TNAME[type_of(got)]);
	if (got->get_rgb_color_space() != b.sp->def) return "is not in the space of the base colour";
	double lo = b.alpha, hi = b.alpha;
	if (is_true(b.t)) { lo = std::floor(b.alpha - .503 + 1); hi = std::floor(b.alpha + .503); if (lo > hi) std::swap(lo, hi); lo = std::min(lo, b.alpha); hi = std::max(hi, b.alpha); }
	double at = 2e-6 * alpha_max(b.t);
	if (!(got->alpha() >= lo - at && got->alpha() <= hi + at)) return sfmt("has alpha %.9g", (double)got->alpha());
	T ot = b.t == HSV_ && b.op == HSL_ ? RGBD : b.t; // the HSV form of a grey may keep any hue: compare what is denoted
	V ov = comps(got); if (ot != b.t) ov = ref_conv(HSV_, RGBD, ov, *b.sp->ref);
	auto ref = [&](const V& v) { return ref_conv(b.op, ot, clamp_to(b.op, m(v)), *b.sp->ref); };
	Close k = close(ov, ref, b.in, comps_of(b.op), comps_of(ot));
	if (k.ill) ++c.illcond;
	if (!k.ok) return sfmt("expected %s%s tol %s", ot != b.t ? "rgb " : "", show(k.exp).c_str(), show(k.tol).c_str());
	return "";
}
static void expect(Ctx& c, const std::string& site, const Base& b, color_base* got, const Model& m, const std::string& what) {
	c.event(site);
	std::string e = mismatch(c, b, got, m);
	if (!e.empty()) c.fail(site, "%s of %s in %s: %s %s", what.c_str(), show(b.c).c_str(), b.sp->name.c_str(), got ? show(got).c_str() : "", e.c_str());
}
static void reject(Ctx& c, const std::string& site, const std::string& what, const std::function<void()>& f) {
	Outcome o = attempt(f); c.event("rejection"); c.tick("rejection");
	if (o.k != Outcome::INVALID) c.fail(site + " rejection", "%s: %s", what.c_str(), o.threw() ? ("another exception: " + o.what).c_str() : "accepted");
}

PROPERTY(C16) {
	c.rule = "a case is one of the four adjustments (copying and in-place form) of one colour of any type by one fraction, compared with a double precision model; distinct = (operation, type, 16-bucket colour, fraction bucket)";
	struct { const char* n; color_base* (*f)(color_base*, float); void (*g)(color_base&, float); T op; Model (*m)(double); } ops[] = {
		{ "saturate rgb", [](color_base* a, float p) -> color_base* { return J::saturate_in_rgb_space(a, p); }, [](color_base& a, float p) { J::saturate_in_rgb_space(a, p); }, RGBD, [](double p) -> Model { return [p](const V& v) { double L = .299 * v[0] + .587 * v[1] + .114 * v[2]; V r(3); for (int i = 0; i < 3; ++i) r[i] = nz(v[i] - p * nz(L - v[i], 1), 1); return r; }; } },
		{ "saturate hsl", [](color_base* a, float p) -> color_base* { return J::saturate_in_hsl_space(a, p); }, [](color_base& a, float p) { J::saturate_in_hsl_space(a, p); }, HSL_, [](double p) -> Model { return [p](const V& v) { return V{ v[0], v[1] * (1 + p), v[2] }; }; } },
		{ "luminate rgb", [](color_base* a, float p) -> color_base* { return J::luminate_in_rgb_space(a, p); }, [](color_base& a, float p) { J::luminate_in_rgb_space(a, p); }, RGBD, [](double p) -> Model { return [p](const V& v) { V r(3); for (int i = 0; i < 3; ++i) r[i] = v[i] * (1 + p); return r; }; } },
		{ "luminate hsl", [](color_base* a, float p) -> color_base* { return J::luminate_in_hsl_space(a, p); }, [](color_base& a, float p) { J::luminate_in_hsl_space(a, p); }, HSL_, [](double p) -> Model { return [p](const V& v) { return V{ v[0], v[1], v[2] * (1 + p) }; }; } } };
	static const double ps[] = { 0, -1, -.5, .5, 1, .1, -.1, -2, 10, .25, 1e-3, -.999, -1.001, 2, 100 };
	int n = c.scale(90000, 4500000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P; c.tick("adjustment");
		auto& o = ops[c.rng.below(4)]; T t = (T)c.rng.below(NT); color_base* a = P(gen_color(c, t, sp));
		double p = fl_(c.rng.chance(.35) ? ps[c.rng.below(15)] : c.rng.chance(.8) ? c.rng.range(-1.1, 1.5) : c.rng.range(-2, 10));
		std::string site = o.n;
		guarded2(c, P, sp, a, nullptr, site, [&] { return show(a) + sfmt(" by %.9g", p); }, [&] {
			Base b = base_of(c, P, a, sp, o.op);
			std::string before = snapshot(a);
			color_base* r = P(o.f(a, (float)p));
			// nothing to do: the colour itself, even where it is outside of the gamut of the space
			if (p == 0 && r && same_value(r, a)) c.event(site + " by nothing");
			else expect(c, site, b, r, o.m(p), sfmt("%s by %.9g", o.n, p));
			// the in-place form gives the same colour, on an object of its own
			color_base* q = P(clone(a)); o.g(*q, (float)p); c.event(site + " in place");
			if (r && !same_value(q, r)) expect(c, site + " in place", b, q, o.m(p), sfmt("%s (in place, the copy is %s) by %.9g", o.n, show(r).c_str(), p));
			if (snapshot(a) != before) c.fail(site + " operand", "the copying form changed its operand to %s", show(a).c_str());
			c.cover(site + TNAME[t], bucket(comps(a), comps_of(t)) * 64 + (int)std::floor(p * 4)); c.sample("%s by %.6g: %s -> %s", o.n, p, show(a).c_str(), show(r).c_str());
		}, [&] { p = fl_(c.rng.chance(.5) ? ps[c.rng.below(15)] : c.rng.range(-1.1, 1.5)); });
	}
}

static Model rotate(double d) { return [d](const V& v) { return V{ nz(v[0] + d, 360), v[1], v[2] }; }; }
static void rotations(Ctx& c, const std::string& site, const Base& b, const std::vector<color_base*>& r, const std::vector<double>& deg, int self) {
	if (r.size() != deg.size()) { c.fail(site + " count", "%zu colours instead of %zu for %s", r.size(), deg.size(), show(b.c).c_str()); return; }
	for (size_t i = 0; i < r.size(); ++i) {
		if ((int)i == self) { c.event(site + " base"); if (!r[i] || !same_value(r[i], b.c)) c.fail(site + " base", "the base colour %s is %s at index %zu", show(b.c).c_str(), r[i] ? show(r[i]).c_str() : "null", i); }
		else expect(c, site, b, r[i], rotate(deg[i]), sfmt("rotation by %.9g (index %zu of %zu)", deg[i], i, r.size()));
	}
}
PROPERTY(C17) {
	typedef color_combinations K;
	c.rule = "a case is one colour harmony of one base colour of any type with one parameter; every returned colour is compared with the exact HSL rotation; distinct = (harmony, type, parameter, 12-bucket base colour)";
	int n = c.scale(26000, 1300000);
	static const int rn[] = { 0, 1, -1, -2, 361, 400, 1000, INT32_MIN, INT32_MAX, -360 };
	static const float rd[] = { 0.f, 120.00001f, 120.001f, 120.1f, 121.f, 180.f, 360.f, 1e9f, -0.f, INFINITY };
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P; c.tick("harmony");
		T t = (T)c.rng.below(NT); color_base* a = P(gen_color(c, t, sp)); int w = c.rng.below(8); double d = 0; int cnt = 0; std::string site;
		if (k < 40) { // rejections, on every type
			for (int x : rn) reject(c, "combination", sfmt("%d colours", x), [&] { P(K::create_combination(a, x)); });
			for (float x : rd) { reject(c, "analogous", sfmt("distance %.9g", x), [&] { P(K::create_analogous(a, x)); }); reject(c, "split", sfmt("distance %.9g", x), [&] { P(K::create_complimentary_split(a, x)); }); }
		}
		static const char* names[] = { "complementary", "triplet", "quartet", "quintet", "combination", "analogous", "split", "combination" }; site = names[w];
		guarded2(c, P, sp, a, nullptr, site, [&] { return show(a) + sfmt(" n=%d d=%.9g", cnt, d); }, [&] {
			Base b = base_of(c, P, a, sp, HSL_);
			std::vector<double> deg; std::vector<color_base*> r;
			if (w == 0) { color_base* q = P(K::create_complimentary(a)); expect(c, site, b, q, rotate(180), "complement"); r.push_back(q); cnt = 2; }
			else if (w < 4 || w == 4 || w == 7) {
				cnt = w < 4 ? w + 2 : c.rng.chance(.7) ? 2 + c.rng.below(12) : c.rng.chance(.3) ? 360 - c.rng.below(2) : 2 + c.rng.below(359);
				if (cnt > 20 && !c.rng.chance(.2)) cnt = 2 + cnt % 19;
				r = w == 1 ? K::create_triplet(a) : w == 2 ? K::create_quartet(a) : w == 3 ? K::create_quintet(a) : K::create_combination(a, cnt); P(r);
				for (int i = 0; i < cnt; ++i) deg.push_back(360. * i / cnt);
				rotations(c, site, b, r, deg, 0);
			} else {
				static const double ds[] = { 30, 120, 60, 90, 1, 15, 119.999, .01, 45 };
				d = fl_(c.rng.chance(.4) ? ds[c.rng.below(9)] : c.rng.range(.001, 120));
				if (w == 5) { r = K::create_analogous(a, (float)d); P(r); rotations(c, site, b, r, { -d, 0, d }, 1); }
				else {
					r = K::create_complimentary_split(a, (float)d); P(r);
					color_base* comp = P(K::create_complimentary(a)); Base b2 = base_of(c, P, comp, sp, HSL_); b2.alpha = b.alpha;
					if (r.size() != 3) c.fail(site + " count", "%zu colours for %s", r.size(), show(a).c_str());
					else {
						c.event(site + " base"); if (!r[1] || !same_value(r[1], a)) c.fail(site + " base", "the base colour %s is %s", show(a).c_str(), r[1] ? show(r[1]).c_str() : "null");
						for (int i = 0; i < 3; i += 2) if (!mismatch(c, b2, r[i], rotate(i - 1 < 0 ? -d : d)).empty()) expect(c, site, b, r[i], rotate(i ? 180 + d : 180 - d), sfmt("split complement (index %d) by %.9g", i, d)); else c.event(site);
					}
				}
			}
			// the lightness and saturation of the set is that of the base: follows from the comparison above; opacity exactly
			c.cover(site + TNAME[t] + sfmt("%d %d", cnt, (int)d), bucket(comps(a), comps_of(t), 12)); if (r.size() > 1) c.sample("%s: %s -> %s ...", site.c_str(), show(a).c_str(), show(r[r[0] == a ? 1 : 0]).c_str());
		}, [&] {});
	}
}

PROPERTY(C18) {
	typedef color_combinations K;
	c.rule = "a case is one monochromatic series (mode, step, count) of one base colour of any type; every step is compared with the scaled component; distinct = (mode, type, count, step bucket, 12-bucket base colour)";
	int n = c.scale(26000, 1300000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P; c.tick("series");
		T t = (T)c.rng.below(NT); color_base* a = P(gen_color(c, t, sp)); std::string site;
		if (k < 40) {
			for (float x : { -.001f, -1.f, 1.0000001f, 1.0001f, 1.001f, 1.01f, 2.f, 1e9f, -1e9f, INFINITY, -INFINITY, -1e-30f, -1e-6f }) for (int m = 0; m < 3; ++m) reject(c, "amount", sfmt("fraction %.9g", x), [&] { P(K::create_monochromatic(a, m, x, 1 + c.rng.below(4))); });
			for (int x : { 0, -1, INT32_MIN }) for (int m = 0; m < 3; ++m) reject(c, "count", sfmt("%d colours", x), [&] { P(K::create_monochromatic(a, m, .1f, x)); });
			for (int m : { -1, 3, 4, 100, INT32_MIN, INT32_MAX }) for (int x : { 2, 3, 7 }) reject(c, "mode", sfmt("mode %d", m), [&] { P(K::create_monochromatic(a, m, .1f, x)); });
		}
		int m = c.rng.below(3), cnt = c.rng.chance(.1) ? 1 : c.rng.chance(.9) ? 2 + c.rng.below(6) : 8 + c.rng.below(40);
		if (k % 1500 == 1499) cnt = 300 + c.rng.below(2500); // a long series
		double q = fl_(c.rng.chance(.3) ? (const double[]){ 0, 1, .5, .1, .25, .999, .001 }[c.rng.below(7)] : cnt > 7 && c.rng.chance(.6) ? std::pow(10, c.rng.range(-6, -1)) : c.rng.chance(.1) ? std::pow(10, c.rng.range(-7, -1)) : c.rng.u());
		site = sfmt("mode %d", m);
		guarded2(c, P, sp, a, nullptr, site, [&] { return show(a) + sfmt(" step %.9g count %d", q, cnt); }, [&] {
			auto r = K::create_monochromatic(a, m, (float)q, cnt); P(r);
			if ((int)r.size() != cnt) { c.fail(site + " count", "%zu colours instead of %d for %s", r.size(), cnt, show(a).c_str()); return; }
			c.event(site + " base"); if (!r[0] || !same_value(r[0], a)) { c.fail(site + " base", "the base colour %s is %s", show(a).c_str(), r[0] ? show(r[0]).c_str() : "null"); return; }
			Base b0 = base_of(c, P, a, sp, HSL_);
			for (int i = 1; i < cnt; ++i) {
				if (!r[i]) { c.fail(site, "null at index %d", i); return; }
				if (type_of(r[i]) != t) { c.fail(site, "index %d of the series of %s is %s", i, show(a).c_str(), show(r[i]).c_str()); return; }
				auto step = [&](double f) -> Model { return [=](const V& v) { V o = v; if (m != 1) o[1] *= f; if (m != 0) o[2] *= f; return o; }; };
				// relative to the previous colour, as it was rounded to the type, or directly from the base
				Base b = base_of(c, P, r[i - 1], sp, HSL_); b.alpha = b0.alpha; c.event(site);
				std::string e = mismatch(c, b, r[i], step(1 - q)), e2; if (!e.empty()) e2 = mismatch(c, b0, r[i], step(std::pow(1 - q, i)));
				if (!e.empty() && !e2.empty()) { c.fail(site, "index %d of %d, step %.9g of %s in %s: after %s comes %s %s", i, cnt, q, show(a).c_str(), sp.name.c_str(), show(r[i - 1]).c_str(), show(r[i]).c_str(), e.c_str()); return; }
			}
			c.cover(site + TNAME[t] + sfmt("%d %d", cnt, (int)(q * 10)), bucket(comps(a), comps_of(t), 12)); if (cnt > 1) c.sample("%s step %.6g: %s -> %s", site.c_str(), q, show(a).c_str(), show(r[1]).c_str());
		}, [&] { switch (c.rng.below(3)) { case 0: m = (m + 1 + c.rng.below(2)) % 3; break; case 1: q = fl_(c.rng.u()); break; default: cnt = 1 + c.rng.below(8); } site = sfmt("mode %d", m); });
	}
}
