// C19 add, mix, subtract; C20 averages.
#include "ref.h"
static T op_space(T t) { return t == HSI_ || t == HSL_ || t == HCY_ ? HSV_ : t == LAB_ || t == LCHAB || t == LCHUV ? XYZ_ : t; }
enum Kind { ADD, MIX, SUB };
static const char* KN[] = { "add", "mix", "subtract" };
// what the types are compared in: HSV as polar vector (the hue of a grey is free), HSL as what it denotes
static V view(T t, const V& v, const RS& s) {
	if (t == HSV_) return V{ v[1] * std::cos(v[0] * M_PI / 180), v[1] * std::sin(v[0] * M_PI / 180), v[2] };
	if (t == HSL_) return ref_conv(HSL_, RGBD, v, s);
	return v;
}
static const std::vector<Comp>& view_range(T t) { static const std::vector<Comp> p = { { -1, 1, false, 1 }, { -1, 1, false, 1 }, { 0, 1, false, 1 } }; return t == HSV_ ? p : t == HSL_ ? comps_of(RGBD) : comps_of(t); }

struct Calc { Kind k; T t, o; const Space* sp; double w1, w2; bool alpha; V in; std::vector<Comp> rg; size_t n; };
static V model(const Calc& q, const V& v) {
	size_t n = q.n; V r(n); double a1 = v[n], a2 = v[2 * n + 1], a; const double* x = &v[0]; const double* y = &v[n + 1]; bool rgb = q.o == RGBT || q.o == RGBD;
	if (q.o == HSV_) {
		auto vec = [](const double* h) { return V{ h[1] * std::cos(h[0] * M_PI / 180), h[1] * std::sin(h[0] * M_PI / 180), h[2] }; };
		V p = vec(x), s = vec(y); double u = q.k == SUB ? 1 : q.w1, w = q.k == SUB ? -q.w2 : q.w2, m = u * x[1] + std::fabs(w) * y[1], e[3];
		for (int i = 0; i < 3; ++i) e[i] = nz(u * p[i] + w * s[i], i < 2 ? m : 1);
		double h = std::atan2(e[1], e[0]) * 180 / M_PI; r = V{ h, std::hypot(e[0], e[1]), e[2] };
	}
	else for (size_t i = 0; i < n; ++i) r[i] = q.k == SUB ? x[i] - q.w2 * y[i] : rgb ? std::sqrt(q.w1 * x[i] * x[i] + q.w2 * y[i] * y[i]) : q.w1 * x[i] + q.w2 * y[i];
	a = !q.alpha ? a1 : q.k == SUB ? a1 - q.w2 * a2 : rgb ? std::sqrt(q.w1 * a1 * a1 + q.w2 * a2 * a2) : q.w1 * a1 + q.w2 * a2;
	r = view(q.t, ref_conv(q.o, q.t, clamp_to(q.o, r), *q.sp->ref), *q.sp->ref);
	r.push_back(clampd(a, 0, alpha_max(q.t)));
	return r;
}
static void judge(Ctx& c, const std::string& site, const Calc& q, color_base* a, color_base* b, color_base* r) {
	c.event(site);
	auto what = [&] { return sfmt("%s of %s and %s (weights %.9g, %.9g%s) in %s", site.c_str(), show(a).c_str(), show(b).c_str(), q.w1, q.w2, q.alpha ? ", with alpha" : "", q.sp->name.c_str()); };
	if (!r) { c.fail(site, "%s is null", what().c_str()); return; }
	if (type_of(r) != q.t || r->get_rgb_color_space() != q.sp->def) { c.fail(site + " type", "%s is %s: not the type and space of the first colour", what().c_str(), show(r).c_str()); return; }
	V got = view(q.t, comps(r), *q.sp->ref); got.push_back(r->alpha());
	auto orr = view_range(q.t); orr.push_back(Comp{ 0, alpha_max(q.t), false, alpha_max(q.t) });
	Close k = close(got, [&](const V& v) { return model(q, v); }, q.in, q.rg, orr);
	if (k.ill) ++c.illcond;
	if (!k.ok) c.fail(site, "%s: %s, expected %s tol %s", what().c_str(), show(r).c_str(), show(k.exp).c_str(), show(k.tol).c_str());
}
static Calc calc(Pool& P, Kind k, color_base* a, color_base* b, double w1, double w2, bool alpha, const Space& sp) {
	Calc q; q.k = k; q.t = type_of(a); q.o = op_space(q.t); q.sp = &sp; q.w1 = w1; q.w2 = w2; q.alpha = alpha; q.n = comps_of(q.o).size();
	for (color_base* x : { a, b }) {
		if (type_of(x) != q.t) x = P(to_x(x, q.t));
		if (q.o != q.t) x = P(to_x(x, q.o));
		for (double v : comps(x)) q.in.push_back(v); q.in.push_back(x->alpha());
		for (auto& r : comps_of(q.o)) q.rg.push_back(r); q.rg.push_back(Comp{ 0, alpha_max(q.t), false, alpha_max(q.t) });
	}
	return q;
}
static void reject(Ctx& c, const std::string& site, const std::string& what, const std::function<void()>& f) {
	Outcome o = attempt(f); c.event("rejection"); c.tick("rejection");
	if (o.k != Outcome::INVALID) c.fail(site + " rejection", "%s: %s", what.c_str(), o.threw() ? ("another exception: " + o.what).c_str() : "accepted");
}

PROPERTY(C19) {
	typedef color_calculation K;
	c.rule = "a case is one addition, mix or subtraction of two colours, in the typed form (both of one type) or the generic form (any types), with weights and with or without alpha, compared with a double precision model; distinct = (operation, form, type pair, alpha flag, weight bucket, 8-bucket colours)";
	if (c.chunk == 0) for (int t = 0; t < NT; ++t) for (int u = 0; u < NT; ++u) {
		const Space& sp = presets()[0]; Pool P; color_base* a = P(gen_color(c, (T)t, sp)); color_base* b = P(gen_color(c, (T)u, sp));
		for (float w : { -1e-30f, -1e-6f, -1.f, 1.0000001f, 1.00001f, 1.001f, 2.f, -1e9f, 1e9f, INFINITY, -INFINITY }) {
			std::string d = sfmt("weight %.9g for %s and %s", w, TNAME[t], TNAME[u]);
			reject(c, "add", d, [&] { P(K::add(a, b, w, .5f, true)); }); reject(c, "add", d, [&] { P(K::add(a, b, .5f, w, false)); });
			reject(c, "mix", d, [&] { P(K::mix(a, b, w, true)); }); reject(c, "subtract", d, [&] { P(K::subtract(a, b, w, false)); });
			if (t == u) {
				reject(c, "typed add", d, [&] { P(typed_add(a, b, w, .5f, true)); }); reject(c, "typed add", d, [&] { P(typed_add(a, b, .5f, w, false)); });
				reject(c, "typed mix", d, [&] { P(typed_mix(a, b, w, true)); }); reject(c, "typed subtract", d, [&] { P(typed_subtract(a, b, w, false)); });
			}
		}
	}
	int n = c.scale(120000, 6000000);
	static const double ws[] = { 0, 1, .5, .25, .75, 1e-4, .9999 };
	for (int i = 0; i < n; ++i) {
		Space sp = pick_space(c, true); Pool P; c.tick("calculation");
		Kind k = (Kind)c.rng.below(3); bool typed = c.rng.chance(.5); T t = (T)c.rng.below(NT), u = typed ? t : (T)c.rng.below(NT); bool al = c.rng.chance(.5);
		color_base* a = P(gen_color(c, t, sp)); color_base* b = c.rng.chance(.04) ? a : gen_partner(c, P, a, u, sp); u = type_of(b); if (b != a) maybe_elsewhere(c, b);
		double w1 = fl_(c.rng.chance(.4) ? ws[c.rng.below(7)] : c.rng.u()), w2 = fl_(c.rng.chance(.4) ? ws[c.rng.below(7)] : c.rng.u());
		if (k == MIX) w2 = 1 - w1; if (k == SUB) w1 = w2;
		std::string site = std::string(typed ? "typed " : "") + KN[k] + " " + TNAME[t];
		guarded2(c, P, sp, a, b, site, [&] { return show(a) + " / " + show(b) + sfmt(" weights %.9g %.9g", w1, w2); }, [&] {
			color_base* r = typed ? (k == ADD ? typed_add(a, b, (float)w1, (float)w2, al) : k == MIX ? typed_mix(a, b, (float)w1, al) : typed_subtract(a, b, (float)w2, al))
				: (k == ADD ? K::add(a, b, (float)w1, (float)w2, al) : k == MIX ? K::mix(a, b, (float)w1, al) : K::subtract(a, b, (float)w2, al));
			P(r); judge(c, site, calc(P, k, a, b, w1, w2, al, sp), a, b, r);
			c.cover(site + TNAME[u] + (al ? "a" : "") + sfmt("%d", (int)(w1 * 4)), bucket(comps(a), comps_of(t), 8) * 31 + bucket(comps(b), comps_of(u), 8)); c.sample("%s: %s and %s, %.6g %.6g -> %s", site.c_str(), show(a).c_str(), show(b).c_str(), w1, w2, r ? show(r).c_str() : "null");
		}, [&] { switch (c.rng.below(4)) { case 0: al = !al; break; case 1: if (k == ADD) { w1 = fl_(c.rng.u()); break; } default: if (k == MIX) { w1 = fl_(c.rng.u()); w2 = 1 - w1; } else { w2 = fl_(c.rng.u()); if (k == SUB) w1 = w2; } } });
	}
}

PROPERTY(C20) {
	c.rule = "a case is the average of one list of colours of one type, with or without alpha, in two orders, compared with the mean in double precision; distinct = (type, length, alpha flag, 16-bucket mean)";
	if (c.chunk == 0) for (int t = 0; t < NT; ++t) for (bool al : { false, true }) reject(c, "empty", TNAME[t], [&] { Pool P; P(average((T)t, {}, al)); });
	int n = c.scale(45000, 2200000);
	for (int i = 0; i < n; ++i) {
		Space sp = pick_space(c, true); Pool P; c.tick("average"); T t = (T)c.rng.below(NT); bool al = c.rng.chance(.5);
		int len = c.rng.chance(.1) ? 1 : c.rng.chance(.3) ? 2 : c.rng.chance(.8) ? 3 + c.rng.below(10) : c.rng.chance(.97) ? 13 + c.rng.below(100) : 200 + c.rng.below(1800); if (c.rng.chance(.0006)) len = 65537 + c.rng.below(3000);
		std::vector<color_base*> v; for (int k = 0; k < len; ++k) v.push_back(k && (c.rng.chance(.1) || k > 3000) ? v[c.rng.below(k)] : k ? gen_partner(c, P, v[k - 1], t, sp) : P(gen_color(c, t, sp)));
		if (c.rng.chance(.3)) for (auto x : v) if (x != v[0]) maybe_elsewhere(c, x);
		std::string site = std::string("average ") + TNAME[t];
		guarded2(c, P, sp, v[c.rng.below(len)], v[0], site, [&] { return sfmt("%d colours starting with ", len) + show(v[0]); }, [&] {
			size_t m = comps_of(t).size(); V mean(m + 1, 0.);
			for (auto p : v) { V x = comps(p); for (size_t k = 0; k < m; ++k) mean[k] += x[k] / len; mean[m] += p->alpha() / len; }
			if (!al) mean[m] = v[0]->alpha();
			for (int round = 0; round < 2; ++round) {
				if (round) for (int k = len - 1; k > 1; --k) std::swap(v[k], v[1 + c.rng.below(k)]); // the first stays: its alpha and space count
				color_base* r = P(average(t, v, al)); c.event(site + (round ? " shuffled" : ""));
				if (!r || type_of(r) != t || r->get_rgb_color_space() != sp.def) { c.fail(site + " type", "%s", r ? show(r).c_str() : "null"); return; }
				V got = comps(r); got.push_back(r->alpha());
				for (size_t k = 0; k <= m; ++k) {
					double unit = k < m ? std::max(comps_of(t)[k].unit, std::fabs(mean[k])) : alpha_max(t);
					if (!(std::fabs(got[k] - mean[k]) <= unit * (3e-6 + 6e-8 * len))) { c.fail(site, "%d colours starting with %s%s -> %s, expected %s", len, show(v[0]).c_str(), al ? " with alpha" : "", show(r).c_str(), show(mean).c_str()); return; }
				}
			}
			c.cover(site + sfmt("%d", len) + (al ? "a" : ""), bucket(mean, comps_of(t).size() == m ? [&] { auto r = comps_of(t); r.push_back(Comp{ 0, alpha_max(t), false, alpha_max(t) }); return r; }() : comps_of(t)));
		}, [&] { if (len > 2 && c.rng.chance(.6)) { v.pop_back(); --len; } else al = !al; });
	}
}
