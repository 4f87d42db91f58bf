// C04 totality, C05 RGB family, C06 CIE family, C07 round trips, C08 codes
#include "ref.h"
#include <typeinfo>
#include <strings.h>

static const std::type_info& rtti(T t) {
	switch (t) {
	case RGBT: return typeid(rgb_truecolor); case RGBD: return typeid(rgb_deepcolor); case GREYT: return typeid(grey_truecolor); case GREYD: return typeid(grey_deepcolor);
	case CMYK_: return typeid(cmyk); case HSI_: return typeid(hsi); case HSV_: return typeid(hsv); case HSL_: return typeid(hsl); case HCY_: return typeid(hcy);
	case XYZ_: return typeid(xyz); case XYY_: return typeid(xyy); case LUV_: return typeid(cieluv); case LAB_: return typeid(lab); case LCHAB: return typeid(lch_ab); default: return typeid(lch_uv);
	}
}
static std::string pairname(T f, T t) { return std::string(TNAME[f]) + "->" + TNAME[t]; }

PROPERTY(C04) {
	c.rule = "a case is one conversion of one generated colour (15x15 type pairs, all RGB spaces, uniform/edge/grey/gamut/near-degenerate colours, all opacities) through convertTo and to_<type>; distinct = (pair, 16-bucket component vector, alpha bucket)";
	int per = c.scale(225 * 260, 225 * 16000);
	for (int k = 0; k < per; ++k) {
		uint64_t idx = (uint64_t)k * c.nchunks + c.chunk;
		T f = (T)(idx % NT), t = (T)((idx / NT) % NT);
		Space sp = pick_space(c, true); Pool P;
		color_base* in = P(gen_color(c, f, sp));
		std::string site = pairname(f, t);
		c.tick("conversion");
		guarded2(c, P, sp, in, nullptr, site, [&] { return show(in); }, [&] {
			color_base* o[2] = { P(generic_convert(in, t)), P(to_x(in, t)) };
			for (int g = 0; g < 2; ++g) {
				std::string s2 = site + (g ? " to_x" : " convertTo");
				if (!o[g]) { c.fail(s2, "null result for %s", show(in).c_str()); continue; }
				color_base* r = o[g];
				c.event(s2);
				if (r->get_color_type() != TENUM[t] || typeid(*r) != rtti(t)) { c.fail(s2 + " type", "type %d/%s for %s", (int)r->get_color_type(), typeid(*r).name(), show(in).c_str()); continue; }
				if (r->get_component_vector().size() != comps_of(t).size()) { c.fail(s2 + " size", "%s -> %s", show(in).c_str(), show(r).c_str()); continue; }
				for (double v : comps(r)) if (v != v) c.fail(s2 + " nan", "%s -> %s", show(in).c_str(), show(r).c_str());
				if (r->get_rgb_color_space() != sp.def) c.fail(s2 + " space", "space not kept for %s", show(in).c_str());
				if (r->get_component_max() != P(make(t, V(4, 0.), 0, sp.def))->get_component_max()) c.fail(s2 + " range", "component maximum of the result is not that of its type for %s", show(in).c_str());
				double a = in->alpha(), lo, hi;
				g_round_bias = -6e-3; lo = ref_alpha(f, t, a); g_round_bias = 6e-3; hi = ref_alpha(f, t, a); g_round_bias = 0;
				double tol = 2e-6 * alpha_max(t);
				if (!(r->alpha() >= lo - tol && r->alpha() <= hi + tol)) c.fail(s2 + " alpha", "%s -> %s, expected alpha %.9g", show(in).c_str(), show(r).c_str(), ref_alpha(f, t, a));
				if (f == t && !(*r == *in)) c.fail(s2 + " identity", "%s -> %s", show(in).c_str(), show(r).c_str());
			}
			c.cover(site, bucket(comps(in), comps_of(f)) * 31 + (int)(in->alpha() / alpha_max(f) * 8));
			c.sample("%s: %s -> %s", site.c_str(), show(in).c_str(), show(o[0]).c_str());
		});
	}
}

// Compare a conversion with the reference.
static void check_conv(Ctx& c, color_base* in, color_base* out, T f, T t, const Space& sp, const std::string& site, double base = 2e-5) {
	V iv = comps(in), ov = comps(out);
	auto ref = [&](const V& v) { return ref_conv(f, t, v, *sp.ref); };
	Close r = close(ov, ref, iv, comps_of(f), comps_of(t), base);
	c.event(site);
	if (r.ill) ++c.illcond;
	if (!r.ok) c.fail(site, "%s in %s -> %s, expected %s tol %s", show(in).c_str(), sp.name.c_str(), show(out).c_str(), show(r.exp).c_str(), show(r.tol).c_str());
}
// HSV<->HSL is also computed directly; an achromatic colour may keep its hue there. Compare what the colours denote.
static void check_hsvl(Ctx& c, color_base* in, color_base* out, T f, T t, const Space& sp, const std::string& site) {
	V iv = comps(in), ov = comps(out);
	V a = ref_conv(f, RGBD, iv, *sp.ref), b = ref_conv(t, RGBD, ov, *sp.ref);
	c.event(site);
	double chroma = std::max(a[0], std::max(a[1], a[2])) - std::min(a[0], std::min(a[1], a[2]));
	for (int i = 0; i < 3; ++i) if (!(std::fabs(a[i] - b[i]) <= 3e-5)) { c.fail(site, "%s -> %s: denotes rgb %s instead of %s", show(in).c_str(), show(out).c_str(), show(b).c_str(), show(a).c_str()); return; }
	if (chroma > 1e-3 && hue_diff(iv[0], ov[0]) > .05) c.fail(site + " hue", "%s -> %s", show(in).c_str(), show(out).c_str());
	// the saturation is determined where the colour is not close to black or white
	V e = ref_conv(f, t, iv, *sp.ref);
	if (chroma > 1e-3 && e[2] > 1e-2 && e[2] < .99 && std::fabs(e[1] - ov[1]) > 1e-3) c.fail(site + " saturation", "%s -> %s expected %s", show(in).c_str(), show(out).c_str(), show(e).c_str());
	if (chroma < 1e-7 && e[2] > 1e-3 && e[2] < .999 && ov[1] > 1e-4) c.fail(site + " grey", "%s -> %s expected %s", show(in).c_str(), show(out).c_str(), show(e).c_str());
}
static void conv_case(Ctx& c, color_base* in, T f, T t, const Space& sp, int route, bool edit = true) {
	std::string site = pairname(f, t);
	c.tick("conversion"); Pool P;
	auto one = [&] {
		if (f == LUV_ || f == LCHUV) { double L = comps(in)[0]; if (L > 0 && L < 1e-6) { c.event("skipped: Luv chromaticity below L=1e-6"); return; } }
		color_base* out = P(route == 0 ? generic_convert(in, t) : route == 1 ? to_x(in, t) : nullptr);
		if (!out) { c.fail(site, "null result for %s", show(in).c_str()); return; }
		if ((f == HSV_ && t == HSL_) || (f == HSL_ && t == HSV_)) check_hsvl(c, in, out, f, t, sp, site);
		else check_conv(c, in, out, f, t, sp, site);
		c.cover(site, bucket(comps(in), comps_of(f), 32));
		c.sample("%s: %s -> %s", site.c_str(), show(in).c_str(), show(out).c_str());
	};
	if (edit) guarded2(c, P, sp, in, nullptr, site, [&] { return show(in); }, one); else guarded(c, site, [&] { return show(in); }, one);
}

PROPERTY(C05) {
	c.rule = "a case is one conversion between two of the nine RGB-family types, compared with a double precision model written from the formulas (tolerance 2e-5 of the component range, widened only by the measured condition of the formula at that input); enumerated 8-bit grids and greys plus random colours; distinct = (pair, 32-bucket component vector)";
	static const T fam[9] = { RGBT, RGBD, GREYT, GREYD, CMYK_, HSI_, HSV_, HSL_, HCY_ };
	const Space& s0 = presets()[0];
	// all greys, and an 8-bit lattice containing every hue sector border and saturated colour
	static const int lv[] = { 0, 1, 2, 64, 85, 127, 128, 170, 191, 254, 255 };
	uint64_t id = 0;
	for (int t = 0; t < 9; ++t) {
		for (int g = 0; g < 256; ++g) for (T f : { GREYT, RGBT, RGBD, GREYD }) if (f != fam[t] && c.mine(id++)) {
			Pool P; double v = is_true(f) ? g : fl_(g / 255.); color_base* in = P(make(f, V(3, v), 255, s0.def)); conv_case(c, in, f, fam[t], s0, g & 1);
		}
		for (int r : lv) for (int g : lv) for (int b : lv) if (c.mine(id++)) {
			Pool P; T f = fam[t] == RGBT ? RGBD : RGBT; double k = f == RGBT ? 1 : 255.;
			color_base* in = P(make(f, V{ r / k, g / k, b / k }, alpha_max(f), s0.def)); conv_case(c, in, f, fam[t], s0, (r + g) & 1);
		}
		// hue lattice for the hue based sources
		for (T f : { HSI_, HSV_, HSL_, HCY_ }) if (f != fam[t]) for (int h = 0; h < 360; h += 15) for (int s = 0; s <= 4; ++s) for (int l = 0; l <= 4; ++l) if (c.mine(id++)) {
			Pool P; color_base* in = P(make(f, V{ (double)h, s / 4., l / 4. }, 1, s0.def)); conv_case(c, in, f, fam[t], s0, h & 1);
		}
	}
	int n = c.scale(72 * 900, 72 * 40000);
	for (int k = 0; k < n; ++k) {
		T f = fam[c.rng.below(9)], t = fam[c.rng.below(9)]; if (f == t) continue;
		Space sp = pick_space(c, true); Pool P; conv_case(c, P(gen_color(c, f, sp)), f, t, sp, c.rng.below(2));
	}
}

PROPERTY(C06) {
	c.rule = "a case is one conversion in which source or target is a CIE type, in one of 20 preset and many random RGB spaces, compared with a double precision model of gamma curve, primaries matrix and CIE definitions (tolerance 2e-5 of the component magnitude, widened only by the measured condition); directed: black, white, primaries, greys of every space; distinct = (pair, 32-bucket component vector)";
	// black, white, primaries, grey scale in every preset
	uint64_t id = 0;
	for (auto& sp : presets()) for (int t = XYZ_; t < NT; ++t) for (int k = 0; k < 8 + 16; ++k) if (c.mine(id++)) {
		Pool P; V v = k < 8 ? V{ (double)(k & 1), (double)(k >> 1 & 1), (double)(k >> 2 & 1) } : V(3, fl_((k - 8) / 15.));
		color_base* in = P(make(RGBD, v, 1, sp.def));
		conv_case(c, in, RGBD, (T)t, sp, k & 1, false);
		guarded(c, "anchors", [&] { return show(in); }, [&] {
			color_base* o = P(to_x(in, (T)t)); V x = comps(o);
			if (t >= LUV_ && k == 0) { c.event("black"); if (!(std::fabs(x[0]) < 1e-3 && std::fabs(x[1]) < 1e-3)) c.fail(std::string("black ") + TNAME[t], "%s: %s", sp.name.c_str(), show(o).c_str()); }
			if (t >= LUV_ && (k == 7 || k == 23)) { c.event("white"); double ch = t >= LCHAB ? x[1] : std::hypot(x[1], x[2]); if (!(std::fabs(x[0] - 100) < 5e-3 && ch < 2e-2)) c.fail(std::string("white ") + TNAME[t], "%s: %s", sp.name.c_str(), show(o).c_str()); }
		});
	}
	int n = c.scale(144 * 700, 144 * 30000);
	for (int k = 0; k < n; ++k) {
		T f = (T)c.rng.below(NT), t = (T)c.rng.below(NT); if (f == t || (!is_cie(f) && !is_cie(t))) { --k; continue; }
		Space sp = pick_space(c, true); Pool P; conv_case(c, P(gen_color(c, f, sp, is_cie(f) && c.rng.chance(.6) ? G_GAMUT : G_ANY)), f, t, sp, c.rng.below(2));
	}
}

// A colour is representable without clamping in t.
static bool fits(const V& unclamped, T t) {
	auto& r = comps_of(t);
	for (size_t i = 0; i < unclamped.size(); ++i) if (!(unclamped[i] >= r[i].lo && unclamped[i] <= r[i].hi)) return false;
	return true;
}
PROPERTY(C07) {
	c.rule = "a case is a journey of an in-gamut colour over one or two intermediate types and back (or to a third type), a comparison of convertTo/to_<type>/<from>_to_<to> for one colour, or an exact 8-bit round trip; distinct = (journey, 16-bucket colour)";
	static const T lossless[] = { RGBD, CMYK_, HSI_, HSV_, HSL_, HCY_, XYZ_, XYY_, LUV_, LAB_, LCHAB, LCHUV };
	int n = c.scale(60000, 3000000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P;
		// generic = direct, for any colour and pair
		if (typed_available) {
			T f = (T)c.rng.below(NT), t = (T)c.rng.below(NT);
			if (f != t) {
				color_base* in = P(gen_color(c, f, sp)); std::string site = "direct " + pairname(f, t); c.tick("direct");
				guarded(c, site, [&] { return show(in); }, [&] {
					color_base* a = P(generic_convert(in, t)), * b = P(typed_convert(in, t)), * d = P(to_x(in, t));
					V x = comps(a), y = comps(b), z = comps(d); c.event("generic=direct " + pairname(f, t)); c.cover(site, bucket(comps(in), comps_of(f)));
					for (size_t i = 0; i < x.size(); ++i) {
						double tol = 1e-6 * comps_of(t)[i].unit;
						if (!(std::fabs(x[i] - y[i]) <= tol) || !(std::fabs(x[i] - z[i]) <= tol)) { c.fail(site, "%s: convertTo %s, direct %s, to_x %s", show(in).c_str(), show(x).c_str(), show(y).c_str(), show(z).c_str()); break; }
					}
					if (std::fabs(a->alpha() - b->alpha()) > 1e-6 * alpha_max(t) || std::fabs(a->alpha() - d->alpha()) > 1e-6 * alpha_max(t)) c.fail(site + " alpha", "%s: %s %s %s", show(in).c_str(), show(a).c_str(), show(b).c_str(), show(d).c_str());
				});
			}
		}
		T a = lossless[c.rng.below(12)], b = lossless[c.rng.below(12)], d = c.rng.chance(.5) ? a : lossless[c.rng.below(12)];
		if (a == b || b == d) continue;
		V start = gen(c, a, sp, c.rng.chance(.7) ? G_GAMUT : c.rng.chance(.5) ? G_GREY : G_NEAR);
		double hue_lim = 358.9;
		auto usable = [&](T t, const V& v) { for (size_t i = 0; i < v.size(); ++i) if (comps_of(t)[i].hue && v[i] > hue_lim) return false;
			auto& r = comps_of(t); if (t >= LUV_) for (size_t i = 0; i < v.size(); ++i) if (!r[i].hue && (v[i] >= r[i].hi || (v[i] <= r[i].lo && r[i].lo < 0))) { if (i == 0 && v[i] >= 99.9) continue; return false; } return true; };
		color_base* in = P(make(a, start, 1, sp.def));
		V iv = comps(in);
		// no leg may leave the range of a type on its way (Luv and LCH keep only |u|,|v|,C <= 100)
		bool ok = usable(a, iv);
		for (T m : { LAB_, LUV_ }) if ((is_cie(a) != is_cie(b) || is_cie(b) != is_cie(d) || is_cie(a))) { V w = ref_conv(a, m, iv, *sp.ref); if (!usable(m, w)) ok = ok && !(a == m || b == m || d == m || (m == LAB_ && (a == LCHAB || b == LCHAB || d == LCHAB)) || (m == LUV_ && (a == LCHUV || b == LCHUV || d == LCHUV))); }
		// chromaticity based types cannot represent a colour that has no luminance at all (only in the cieXYZ space)
		{ V w = a == XYZ_ ? iv : ref_conv(a, XYZ_, iv, *sp.ref); if (w[1] < 1e-6 && (w[0] + w[2] > 1e-6 || a == XYY_)) for (T m : { a, b, d }) if (m == XYY_ || m == LUV_ || m == LCHUV) ok = false;
			if (w[1] < 1.2e-9 && w[0] + w[2] > 0) for (T m : { a, b, d }) if (m == LUV_ || m == LCHUV) ok = false; }
		V bv = ref_conv(a, b, iv, *sp.ref), dv = ref_conv(a, d, iv, *sp.ref);
		if (!ok || !usable(b, bv) || !usable(d, dv)) { c.event("skipped: outside the range of a type on the way"); continue; }
		// black and greys carry no hue: HSV<->HSL keep one, all other routes do not
		std::string site = pairname(a, b) + "->" + TNAME[d];
		c.tick("journey");
		guarded(c, site, [&] { return show(in); }, [&] {
			color_base* mid = P(to_x(in, b)), * fin = P(generic_convert(mid, d)), * direct = P(generic_convert(in, d));
			V mv = comps(mid), fv = comps(fin), xv = comps(direct);
			if (!usable(b, mv) || !usable(d, fv) || !usable(d, xv)) { c.event("skipped: hue beyond 359"); return; }
			c.event(d == a ? std::string("round trip via ") + TNAME[b] : std::string("path via ") + TNAME[b]);
			// Both results are compared as the RGB they denote (so that hues of greys and chromaticities of black do
			// not matter), with what single precision can lose on either route.
			auto denote = [&](T t, const V& v) { return ref_conv(t, RGBD, v, *sp.ref); };
			V fd = denote(d, fv), xd = denote(d, xv);
			// the published BT.2020 curve does not quite meet its inverse at the joint
			bool joint = false;
			if (sp.ref->g == GAUHDTV) for (double x : denote(a, iv)) if (std::fabs(x - .0811) < 6e-4) joint = true;
			if (joint) { c.event("skipped: joint of the BT.2020 curve"); return; }
			V t1 = close(fd, [&](const V& v) { return denote(d, ref_conv(b, d, ref_conv(a, b, v, *sp.ref), *sp.ref)); }, iv, comps_of(a), comps_of(RGBD), 5e-5, 3, true).tol;
			V t2 = close(fd, [&](const V& v) { return denote(d, v); }, fv, comps_of(d), comps_of(RGBD), 5e-5, 3, true).tol;
			Close q = close(fd, [&](const V& v) { return ref_conv(b, RGBD, v, *sp.ref); }, mv, comps_of(b), comps_of(RGBD), 5e-5, 3, true);
			if (q.ill) ++c.illcond;
			bool good = true;
			for (int i = 0; i < 3; ++i) if (!(std::fabs(fd[i] - xd[i]) <= t1[i] + 2 * t2[i] + q.tol[i])) good = false;
			if (!good) c.fail(site, "%s in %s: via %s -> %s, directly %s (rgb %s vs %s)", show(in).c_str(), sp.name.c_str(), show(mid).c_str(), show(fin).c_str(), show(direct).c_str(), show(fd).c_str(), show(xd).c_str());
			// where the components are well conditioned compare them as well
			bool hsvl = (a == HSV_ || a == HSL_) && (b == HSV_ || b == HSL_ || d == HSV_ || d == HSL_);
			hsvl = hsvl || ((b == HSV_ || b == HSL_) && (d == HSV_ || d == HSL_));
			if (!hsvl) {
				Close q1 = close(fv, [&](const V& v) { return ref_conv(b, d, v, *sp.ref); }, mv, comps_of(b), comps_of(d), 5e-5, 3, true);
				Close q2 = close(xv, [&](const V& v) { return ref_conv(a, d, v, *sp.ref); }, iv, comps_of(a), comps_of(d), 5e-5, 3, true);
				Close q3 = close(xv, [&](const V& v) { return ref_conv(b, d, ref_conv(a, b, v, *sp.ref), *sp.ref); }, iv, comps_of(a), comps_of(d), 5e-5, 3, true);
				bool ill = q1.ill || q2.ill || q3.ill;
				if (ill) ++c.illcond;
				else for (size_t i = 0; i < fv.size(); ++i) {
					double df = comps_of(d)[i].hue ? hue_diff(fv[i], xv[i]) : std::fabs(fv[i] - xv[i]);
					if (!(df <= q1.tol[i] + q2.tol[i] + q3.tol[i])) { c.fail(site + " components", "%s in %s: via %s -> %s, directly %s", show(in).c_str(), sp.name.c_str(), show(mid).c_str(), show(fin).c_str(), show(direct).c_str()); break; }
				}
			}
			c.cover(site, bucket(iv, comps_of(a)));
			c.sample("%s: %s -> %s -> %s", site.c_str(), show(in).c_str(), show(mid).c_str(), show(fin).c_str());
		});
	}
	// 8-bit colours survive every lossless type exactly
	n = c.scale(30000, 1500000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c, true); Pool P; T b = lossless[c.rng.below(12)];
		V v{ (double)c.rng.below(256), (double)c.rng.below(256), (double)c.rng.below(256) };
		if (c.rng.chance(.3)) v[c.rng.below(3)] = v[c.rng.below(3)];
		double al = c.rng.below(256);
		color_base* in = P(make(RGBT, v, al, sp.def));
		bool skip = false;
		// chromaticity based types cannot represent a colour that has no luminance at all (only in the cieXYZ space)
		if (b == XYY_ || b == LUV_ || b == LCHUV) { V w = ref_conv(RGBT, XYZ_, v, *sp.ref); if (w[1] < 1e-6 && w[0] + w[2] > 0) skip = true; }
		for (T m : { b, b == LCHAB ? LAB_ : b == LCHUV ? LUV_ : b }) { V w = ref_conv(RGBT, m, v, *sp.ref); auto& r = comps_of(m); for (size_t i = 0; i < w.size(); ++i) if ((r[i].hue && w[i] > 358.9) || (m >= LUV_ && i > 0 && !r[i].hue && (w[i] >= r[i].hi || (r[i].lo < 0 && w[i] <= r[i].lo)))) skip = true; }
		if (skip) { c.event("skipped: outside the range of a type on the way"); continue; }
		std::string site = std::string("8-bit via ") + TNAME[b]; c.tick("8-bit round trip");
		guarded(c, site, [&] { return show(in); }, [&] {
			color_base* mid = P(generic_convert(in, b)), * back = P(generic_convert(mid, RGBT));
			V mv = comps(mid), bv = comps(back);
			Close q = close(V{ v[0] / 255, v[1] / 255, v[2] / 255 }, [&](const V& x) { return ref_conv(b, RGBD, x, *sp.ref); }, mv, comps_of(b), comps_of(RGBD), 1e-4, 3, true);
			bool amb = false; for (double t : q.tol) if (t > 1.5e-3) amb = true; // closer than half a step is not decidable in single precision
			c.event(amb ? site + " (ill conditioned)" : site); c.cover(site, bucket(v, comps_of(RGBT)));
			if (amb) { ++c.illcond; return; }
			if (bv != v || back->alpha() != in->alpha()) c.fail(site, "%s in %s -> %s -> %s", show(in).c_str(), sp.name.c_str(), show(mid).c_str(), show(back).c_str());
		});
	}
}

// The colour names of the CSS keyword table, written down independently of the header.
struct Named { const char* name; unsigned rgb; HexcodeColors id; };
static const Named NAMED[] = {
#define N_(n, v) { #n, v, n },
#include "css.inc"
#undef N_
};
static bool hexdig(char ch) { return (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'f') || (ch >= 'A' && ch <= 'F'); }
static bool valid_code(const std::string& s, unsigned* argb) {
	std::string h = !s.empty() && s[0] == '#' ? s.substr(1) : s;
	if (h.size() != 6 && h.size() != 8) return false;
	for (char ch : h) if (!hexdig(ch)) return false;
	*argb = (unsigned)strtoul(h.c_str(), nullptr, 16); if (h.size() == 6) *argb |= 0xff000000u; return true;
}
static void check_argb(Ctx& c, const std::string& site, rgb_truecolor* q, unsigned argb, const std::string& what, rgb_color_space_definition* d) {
	double a = argb >> 24, r = argb >> 16 & 255, g = argb >> 8 & 255, b = argb & 255;
	c.event(site);
	if (q->red() != r || q->green() != g || q->blue() != b || std::fabs(q->alpha() - a) > 1e-4) c.fail(site, "%s gives %s", what.c_str(), show(q).c_str());
	if (q->get_color_type() != color_type::RGB_TRUE || q->get_rgb_color_space() != d || q->get_component_vector().size() != 3) c.fail(site + " type/space", "%s gives %s", what.c_str(), show(q).c_str());
}
PROPERTY(C08) {
	c.rule = "a case is one hex text (well formed in all spellings, or mutated: wrong length, foreign characters, misplaced #, signs, blanks, embedded NUL, very long), one packed number or one predefined colour in every space it offers; distinct = (kind, code) ";
	Space sp = presets()[0];
	int n = c.scale(60000, 2000000);
	for (int k = 0; k < n; ++k) {
		unsigned argb = c.rng.chance(.2) ? (c.rng.chance(.5) ? 0xffffffffu : 0u) ^ (0xffu << 8 * c.rng.below(4)) : (unsigned)c.rng.next();
		int form = c.rng.below(10); std::string s; char buf[16];
		snprintf(buf, sizeof buf, "%08X", argb); s = buf; if (form & 1) s = s.substr(2);
		for (char& ch : s) if (c.rng.chance(.5)) ch = (char)tolower(ch);
		if (c.rng.chance(.5)) s = "#" + s;
		if (form >= 5) { // damage it
			static const char bad[] = "gGxXzZ#+- \t\n.,:;@`/_%\0oOlI";
			for (int m = c.rng.below(3); m >= 0; --m) {
				int how = c.rng.below(7); size_t p = s.empty() ? 0 : c.rng.below((int)s.size());
				if (how == 0 && !s.empty()) s[p] = bad[c.rng.below(sizeof bad - 1)];
				else if (how == 1 && !s.empty()) s.erase(p, 1 + c.rng.below(3));
				else if (how == 2) s.insert(p, 1, "0123456789abcdefABCDEF"[c.rng.below(22)]);
				else if (how == 3) s.insert(p, 1, bad[c.rng.below(sizeof bad - 1)]);
				else if (how == 4) s = "#" + s;
				else if (how == 5) s = std::string(c.rng.below(12), "0f#"[c.rng.below(3)]);
				else if (c.rng.chance(.01)) s = std::string(1000 + c.rng.below(200000), 'a');
				else if (!s.empty()) s[p] = (char)c.rng.below(256);
			}
		}
		unsigned want = 0; bool valid = valid_code(s, &want); Pool P; c.tick("hex text");
		std::string shown = s.size() > 40 ? sfmt("text of length %zu", s.size()) : "'" + s + "'";
		rgb_truecolor* q = nullptr;
		Outcome o = attempt([&] { q = P(new rgb_truecolor(s, sp.def)); });
		if (valid) {
			if (o.threw()) c.fail("valid text rejected", "%s: %s", shown.c_str(), o.what.c_str());
			else check_argb(c, s[0] == '#' ? (s.size() == 7 ? "text #RRGGBB" : "text #AARRGGBB") : (s.size() == 6 ? "text RRGGBB" : "text AARRGGBB"), q, want, shown, sp.def);
			c.cover("text", want); c.sample("%s -> %s", shown.c_str(), show(q).c_str());
		}
		else {
			c.event("malformed text"); c.cover("malformed", std::hash<std::string>()(s));
			if (!o.threw()) c.fail("malformed text accepted", "%s -> %s", shown.c_str(), show(q).c_str());
			else if (o.k != Outcome::INVALID) c.fail("malformed text exception", "%s: %s", shown.c_str(), o.what.c_str());
		}
		c.tick("packed number");
		guarded(c, "packed number", [&] { return sfmt("%08x", argb); }, [&] { check_argb(c, "packed number", P(new rgb_truecolor((int)argb, sp.def)), argb, sfmt("0x%08x", argb), sp.def); c.cover("int", argb); });
	}
	uint64_t id = 0;
	for (auto& nm : NAMED) for (auto& s2 : presets()) if (c.mine(id++)) {
		unsigned argb = std::string(nm.name) == "Transparent" ? nm.rgb : nm.rgb | 0xff000000u;
		std::string site = "predefined";
		c.tick("predefined"); Pool P;
		guarded(c, site, [&] { return std::string(nm.name); }, [&] {
			predefined_color p(nm.id, s2.def);
			rgb_truecolor* base = P(p.get_rgb_true());
			check_argb(c, "predefined rgb_true", base, argb, nm.name, s2.def);
			V rgb{ double(argb >> 16 & 255), double(argb >> 8 & 255), double(argb & 255) };
			double al = argb >> 24;
			auto one = [&](color_base* o, T t) {
				P(o); c.event(std::string("predefined ") + TNAME[t]); c.cover(std::string(nm.name) + TNAME[t], 1);
				if (!o || type_of(o) != t) { c.fail(std::string("predefined type ") + TNAME[t], "%s", nm.name); return; }
				Close r = close(comps(o), [&](const V& v) { return ref_conv(RGBT, t, v, *s2.ref); }, rgb, comps_of(RGBT), comps_of(t), 3e-5, 3);
				if (!r.ok) c.fail(std::string("predefined ") + TNAME[t], "%s in %s: %s expected %s", nm.name, s2.name.c_str(), show(o).c_str(), show(r.exp).c_str());
				if (std::fabs(o->alpha() - ref_alpha(RGBT, t, al)) > 2e-6 * alpha_max(t) || o->get_rgb_color_space() != s2.def) c.fail(std::string("predefined alpha/space ") + TNAME[t], "%s: %s", nm.name, show(o).c_str());
			};
			one(p.get_rgb_deep(), RGBD); one(p.get_grey_true(), GREYT); one(p.get_grey_deep(), GREYD); one(p.get_cmyk(), CMYK_); one(p.get_hsv(), HSV_);
			one(p.get_hsl(), HSL_); one(p.get_xyz(), XYZ_); one(p.get_xyy(), XYY_); one(p.get_lab(), LAB_);
		});
	}
}
