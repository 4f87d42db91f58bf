// C24 colours as values: random histories against a shadow model.
#include "ops.h"
struct Shadow { color_base* c; T t; std::vector<float> v; double alpha; rgb_color_space_definition* s; };
static bool uniform(T t) { return t <= CMYK_ || t == XYZ_ || t == XYY_; }
static double norm_alpha(const Shadow& s) { return s.alpha / alpha_max(s.t); }
static std::string shs(const Shadow& s) { V v(s.v.begin(), s.v.end()); return sfmt("%s%s a=%.9g", TNAME[s.t], show(v).c_str(), s.alpha); }
// what a setter of component i keeps of x; NaN if only the range is known
static double kept(T t, int i, double x) {
	auto& r = comps_of(t)[i]; if (!(x == x)) return NAN;
	if (r.hue && t < XYZ_) { if (!(std::fabs(x) < 1e5)) return NAN; x = std::fmod(x, 360); if (x < 0) x += 360; }
	return clampd(x, r.lo, r.hi);
}
static bool fits(double got, double want, const Comp& r) { return want == want ? std::fabs(got - want) <= (r.hue ? 1e-4 : 0) : got >= r.lo && got <= r.hi; }
static bool alpha_fits(double got, double want, T t) { return std::fabs(got - want) <= 1e-6 * alpha_max(t); }
static double kept_alpha(T t, double a) { return a == a ? clampd(a, 0, alpha_max(t)) : NAN; }

// Compares an object with its shadow; the alpha of the shadow then follows the object (it is known up to rounding).
static bool agree(Ctx& c, const std::string& site, Shadow& s, const std::function<std::string()>& desc) {
	c.event("object compared with its shadow");
	auto bad = [&](const char* w) { c.fail(site, "%s: %s: %s, expected %s", desc().c_str(), w, show(s.c).c_str(), shs(s).c_str()); return false; };
	if (type_of(s.c) != s.t) return bad("type");
	auto v = s.c->get_component_vector(); if (v.size() != s.v.size()) return bad("number of components");
	for (size_t i = 0; i < v.size(); ++i) if (!(v[i] == s.v[i])) return bad("components");
	for (size_t i = 0; i < v.size(); ++i) if (!(s.c->get_component((int)i) == v[i]) || !(get_named(s.c, (int)i) == v[i])) return bad("getters");
	if (!alpha_fits(s.c->alpha(), s.alpha, s.t)) return bad("alpha");
	if (s.c->get_rgb_color_space() != s.s) return bad("rgb space");
	if (s.c->get_component_max() != (float)class_max(s.t) || s.c->get_component_min() != (float)class_min(s.t)) return bad("range");
	s.alpha = s.c->alpha();
	return true;
}
static float any_value(Ctx& c, T t, int i) { auto& r = comps_of(t)[i]; Rng& g = c.rng; double w = r.hi - r.lo; return g.chance(.15) ? hostile(g) : g.chance(.3) ? (float)g.range(r.lo - w, r.hi + w) : g.chance(.2) ? (float)(g.chance(.5) ? r.lo : r.hi) : r.hue && g.chance(.3) ? (float)g.range(-3000, 3000) : (float)g.range(r.lo, r.hi); }

PROPERTY(C24) {
	c.rule = "a case is one step (construction, copy, conversion from a generic reference, assignment, setter, premultiplication, gamma correction, comparison, destruction, misuse) of a random history over up to 10 colours of 15 types; after every step every living colour is compared with its shadow; distinct = (step, type, 8-bucket components)";
	int hist = c.scale(20000, 600000);
	for (int h = 0; h < hist; ++h) {
		std::vector<Shadow> o; std::vector<std::string> log; bool broken = false;
		std::vector<Space> sps; for (int i = 0; i < 3; ++i) sps.push_back(pick_space(c, i == 0));
		int focus = c.rng.below(NT + 4); // half of the histories stay within few types, so that assignments and comparisons have partners
		auto desc = [&] { std::string s; for (size_t i = log.size() > 14 ? log.size() - 14 : 0; i < log.size(); ++i) s += log[i] + "; "; return s; };
		auto fresh = [&] {
			Shadow s; s.t = c.rng.chance(.6) && focus < NT ? (T)focus : (T)c.rng.below(NT); const Space& sp = sps[c.rng.below(3)]; s.s = sp.def; V in(comps_of(s.t).size());
			bool plain = c.rng.chance(.5); if (plain) in = gen(c, s.t, sp); else for (size_t i = 0; i < in.size(); ++i) in[i] = any_value(c, s.t, (int)i);
			double al = plain || c.rng.chance(.5) ? gen_alpha(c, s.t) : any_value(c, is_true(s.t) ? RGBT : RGBD, 0);
			std::string site = std::string("construct ") + TNAME[s.t];
			if ((s.t == RGBT || s.t == RGBD) && c.rng.chance(.2)) { in[1] = in[2] = in[0]; s.c = s.t == RGBT ? (color_base*)new rgb_truecolor((float)in[0], (float)al, s.s) : new rgb_deepcolor((float)in[0], (float)al, s.s); site += " from one value"; }
			else s.c = make(s.t, in, al, s.s);
			log.push_back(sfmt("#%d = %s%s a=%g", (int)o.size(), TNAME[s.t], show(in).c_str(), al));
			if (type_of(s.c) != s.t || s.c->get_component_vector().size() != in.size()) { c.fail(site, "%s: %s", desc().c_str(), show(s.c).c_str()); broken = true; o.push_back(s); return; }
			s.v = s.c->get_component_vector(); double ka = kept_alpha(s.t, al); s.alpha = ka == ka ? ka : s.c->alpha();
			for (size_t i = 0; i < in.size(); ++i) if (!fits(s.v[i], kept(s.t, (int)i, in[i]), comps_of(s.t)[i])) { c.fail(site, "%s: component %d: %s", desc().c_str(), (int)i, show(s.c).c_str()); break; }
			if (!(s.c->alpha() >= 0 && s.c->alpha() <= alpha_max(s.t))) c.fail(site + " alpha", "%s: %s", desc().c_str(), show(s.c).c_str());
			c.event(site); c.cover(site, bucket(in, comps_of(s.t), 8)); o.push_back(s); if (!agree(c, site, o.back(), desc)) broken = true;
		};
		c.tick("value history");
		int steps = 10 + c.rng.below(30);
		for (int k = 0; k < steps && !broken; ++k) {
			c.tick("value step");
			guarded(c, "history", desc, [&] {
				if (o.size() < 3 || (o.size() < 10 && c.rng.chance(.12))) { fresh(); return; }
				int i = c.rng.below((int)o.size()), j = c.rng.below((int)o.size()); if (c.rng.chance(.5)) for (int q = 0; q < 10 && (o[j].t != o[i].t || j == i); ++q) j = c.rng.below((int)o.size());
				Shadow& a = o[i]; Shadow& b = o[j]; std::string site; int n = (int)a.v.size(); auto& R = comps_of(a.t); V av(a.v.begin(), a.v.end());
				switch (c.rng.below(17)) {
				case 0: { // copy
					site = std::string("copy ") + TNAME[a.t]; if (o.size() >= 10) return; Shadow s = a; s.c = clone(a.c); log.push_back(sfmt("#%d = copy of #%d", (int)o.size(), i)); o.push_back(s); break; }
				case 1: { // from a generic reference
					T t = c.rng.chance(.6) ? a.t : (T)c.rng.below(NT); if (o.size() >= 10) return; color_base* r = nullptr; Outcome oc = attempt([&] { r = from_base(t, *a.c); });
					site = std::string(TNAME[t]) + " from a generic " + (t == a.t ? "reference of its type" : "reference of another type"); log.push_back(sfmt("#%d as %s", i, TNAME[t]));
					if (t == a.t) { if (!r) { c.fail(site, "%s: %s", desc().c_str(), oc.what.c_str()); return; } Shadow s = a; s.c = r; o.push_back(s); }
					else { if (oc.k != Outcome::INVALID) c.fail(site, "%s: %s", desc().c_str(), r ? show(r).c_str() : oc.what.c_str()); delete r; }
					break; }
				case 2: // assignment
					if (a.t != b.t) return; site = std::string("assign ") + TNAME[a.t]; log.push_back(sfmt("#%d = #%d (%s)", i, j, show(b.c).c_str())); assign_typed(a.c, b.c); a.v = b.v; break;
				case 3: // assignment through the base
					if (a.t != b.t) return; site = std::string("assign through the base ") + TNAME[a.t]; log.push_back(sfmt("base #%d = #%d", i, j)); *a.c = *b.c; a.v = b.v;
					if (a.c->get_rgb_color_space() == b.s) a.s = b.s; if (alpha_fits(a.c->alpha(), b.alpha, a.t)) a.alpha = b.alpha; break;
				case 4: case 5: { // named setter
					int m = c.rng.below(n); float x = any_value(c, a.t, m); site = sfmt("setter %s[%d]", TNAME[a.t], m); log.push_back(sfmt("#%d.%d(%.9g)", i, m, x)); set_named(a.c, m, x); float g = a.c->get_component(m);
					if (!fits(g, kept(a.t, m, x), R[m])) c.fail(site, "%s: %s", desc().c_str(), show(a.c).c_str()); a.v[m] = g; c.cover(site, bucket(V{ x }, V().empty() ? std::vector<Comp>{ R[m] } : R, 8)); break; }
				case 6: { // generic setter
					int m = c.rng.below(n); float x = any_value(c, a.t, m); site = std::string("set_component ") + TNAME[a.t]; log.push_back(sfmt("#%d.set_component(%.9g, %d)", i, x, m)); a.c->set_component(x, m); float g = a.c->get_component(m);
					double lo = class_min(a.t), hi = class_max(a.t); if (x == x ? g != (float)clampd(x, lo, hi) : !(g >= lo && g <= hi)) c.fail(site, "%s: %s", desc().c_str(), show(a.c).c_str()); a.v[m] = g; break; }
				case 7: { // generic setter with bounds
					int m = c.rng.below(n); float x = any_value(c, a.t, m), lo = (float)c.rng.range(R[m].lo, R[m].hi), hi = (float)c.rng.range(lo, R[m].hi); site = std::string("set_component with bounds ") + TNAME[a.t]; log.push_back(sfmt("#%d.set_component(%.9g, %d, %.9g, %.9g)", i, x, m, hi, lo));
					a.c->set_component(x, m, hi, lo); float g = a.c->get_component(m); if (x == x ? g != std::max(lo, std::min(hi, x)) : !(g >= lo && g <= hi)) c.fail(site, "%s: %s", desc().c_str(), show(a.c).c_str()); a.v[m] = g; break; }
				case 8: { // misuse
					static const int ix[] = { -1, -2, INT32_MIN, INT32_MAX, 7, 100, -100 }; int m = c.rng.chance(.4) ? n : c.rng.chance(.3) ? n + 1 : ix[c.rng.below(7)], w = c.rng.below(3); site = std::string("bad index ") + TNAME[a.t]; log.push_back(sfmt("#%d bad index %d", i, m));
					Outcome oc = attempt([&] { if (w == 0) (void)a.c->get_component(m); else if (w == 1) a.c->set_component(.5f, m); else a.c->set_component(.5f, m, 1, 0); }); if (oc.k != Outcome::RANGE) c.fail(site, "%s: kind %d: %s", desc().c_str(), w, oc.threw() ? oc.what.c_str() : "accepted"); break; }
				case 9: { float x = any_value(c, is_true(a.t) ? RGBT : RGBD, 0); site = std::string("alpha ") + TNAME[a.t]; log.push_back(sfmt("#%d.alpha(%.9g)", i, x)); a.c->alpha(x); double w = kept_alpha(a.t, x); if (w == w) a.alpha = w; else { a.alpha = a.c->alpha(); if (!(a.alpha >= 0 && a.alpha <= alpha_max(a.t))) c.fail(site, "%s: %s", desc().c_str(), show(a.c).c_str()); } break; }
				case 10: { auto* d = sps[c.rng.below(3)].def; site = std::string("rgb space ") + TNAME[a.t]; log.push_back(sfmt("#%d.set_rgb_color_space", i)); if (c.rng.chance(.2)) { // no space at all, for a while
						V was = comps(a.c); a.c->set_rgb_color_space(nullptr); color_base* q = clone(a.c); c.event("colour without a space");
						if (a.c->get_rgb_color_space() || q->get_rgb_color_space() || comps(q) != was || comps(a.c) != was) c.fail(site + " none", "%s", desc().c_str()); delete q; }
					a.c->set_rgb_color_space(d); a.s = d; break; }
				case 11: { // premultiply, un-premultiply
					bool mul = c.rng.chance(.6); double al = norm_alpha(a); if (!mul && al < 1e-6 && al != 0) return; site = std::string(mul ? "alpha_multiply " : "alpha_divide ") + TNAME[a.t]; log.push_back(sfmt("#%d.%s", i, mul ? "alpha_multiply" : "alpha_divide"));
					if (mul) a.c->alpha_multiply(); else a.c->alpha_divide(); auto g = a.c->get_component_vector(); if (g.size() != a.v.size()) { c.fail(site, "%s", desc().c_str()); return; }
					for (int m = 0; m < n; ++m) { double w = mul ? a.v[m] * al : al == 0 ? a.v[m] : a.v[m] / al; if (!(std::fabs(g[m] - w) <= 1e-6 * std::fabs(w) + 1e-37)) { c.fail(site, "%s: %s, expected component %d %.9g", desc().c_str(), show(a.c).c_str(), m, w); break; } }
					if (mul && al > 1e-6 && c.rng.chance(.6)) { a.c->alpha_divide(); auto q = a.c->get_component_vector(); c.event("premultiplied and back"); for (int m = 0; m < n; ++m) if (!(std::fabs(q[m] - a.v[m]) <= 1e-6 * std::fabs(a.v[m]) + 1e-30)) { c.fail("premultiply and back", "%s: %s, was %s", desc().c_str(), show(a.c).c_str(), shs(a).c_str()); break; } g = q; }
					a.v = g; for (float x : a.v) if (!(std::fabs(x) <= 1e5)) for (int m = 0; m < n; ++m) { set_named(a.c, m, .25f); a.v[m] = .25f; } // keep values ordinary
					break; }
				case 12: { // gamma
					if (!uniform(a.t)) return; bool inv = c.rng.chance(.5); site = std::string(inv ? "do_inverse_gamma_correction " : "do_gamma_correction ") + TNAME[a.t]; log.push_back(sfmt("#%d.%s", i, site.c_str())); const Space* sp = nullptr; for (auto& s : sps) if (s.def == a.s) sp = &s;
					if (inv) a.c->do_inverse_gamma_correction(); else a.c->do_gamma_correction(); auto g = a.c->get_component_vector(); double lo = class_min(a.t), hi = class_max(a.t);
					for (int m = 0; m < n; ++m) { float lib = inv ? a.s->get_gamma_curve()->inverse_gamma_correction(a.v[m]) : a.s->get_gamma_curve()->gamma_correction(a.v[m]); double w = lib == lib ? clampd(lib, lo, hi) : NAN;
						if (w == w ? std::fabs(g[m] - w) > 2e-6 * (1 + w) : !(g[m] >= lo && g[m] <= hi)) { c.fail(site, "%s: %s, expected component %d %.9g", desc().c_str(), show(a.c).c_str(), m, w); break; }
						if (a.t <= GREYD && !is_true(a.t) && sp && sp->ref->g != GAUHDTV && a.v[m] >= 0 && a.v[m] <= 1) { double p = clampd(inv ? sp->ref->dec(a.v[m]) : sp->ref->enc(a.v[m]), 0, 1); if (!(std::fabs(g[m] - p) <= 2e-4)) { c.fail(site + " curve", "%s: %s, component %d, %s -> %.9g, expected %.9g", desc().c_str(), sp->name.c_str(), m, show(av).c_str(), g[m], p); break; } } }
					a.v = g; break; }
				case 13: case 14: { // compare
					site = "compare"; bool same = a.t == b.t && a.v == b.v, e = *a.c == *b.c, e2 = *b.c == *a.c, ne = *a.c != *b.c; c.event(same ? "compared equal" : a.t == b.t ? "compared different" : "compared different types"); log.push_back(sfmt("#%d == #%d", i, j));
					if (e != same || e2 != same || ne == same) c.fail(site, "%s: %s and %s: == %d %d, != %d", desc().c_str(), show(a.c).c_str(), show(b.c).c_str(), e, e2, ne);
					if (!(*a.c == *a.c)) c.fail(site, "%s: not equal to itself", show(a.c).c_str()); break; }
				case 15: { // sum
					site = std::string("operator+ ") + TNAME[a.t]; log.push_back(sfmt("#%d + #%d", i, j)); std::vector<float> g; color_type ty = color_type::UNDEFINED; rgb_color_space_definition* sp = nullptr; Outcome oc = attempt([&] { color_base s = *a.c + *b.c; g = s.get_component_vector(); ty = s.get_color_type(); sp = s.get_rgb_color_space(); });
					if (a.t != b.t) { if (oc.k != Outcome::INVALID) c.fail("operator+ of different types", "%s: %s", desc().c_str(), oc.what.c_str()); break; }
					bool ok = !oc.threw() && g.size() == a.v.size() && ty == TENUM[a.t] && sp == a.s; double lo = class_min(a.t), hi = class_max(a.t); for (int m = 0; ok && m < n; ++m) { double w = clampd((double)a.v[m] + b.v[m], lo, hi); if (!(std::fabs(g[m] - w) <= 1e-6 * (1 + std::fabs(w)))) ok = false; }
					if (!ok) c.fail(site, "%s: %s + %s = %s %s", desc().c_str(), show(a.c).c_str(), show(b.c).c_str(), show(V(g.begin(), g.end())).c_str(), oc.what.c_str()); break; }
				case 16: if (o.size() < 4) return; site = "destroy"; log.push_back(sfmt("#%d destroyed, last takes its number", i)); delete a.c; o[i] = o.back(); o.pop_back(); break;
				}
				c.event(site); c.cover(site, bucket(av, R, 8));
				for (auto& s : o) if (!agree(c, site, s, desc)) { broken = true; break; }
			});
		}
		c.sample("%s", desc().c_str());
		for (auto& s : o) delete s.c;
	}
}
