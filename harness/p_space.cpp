// C09 gamma curves, C10 RGB spaces, C11 white points, C12 matrices
#include "ref.h"
#include <algorithm>
#include <limits>

// ---- C09 ------------------------------------------------------------------------------------------------------------
namespace {
struct Part { gamma_part* p; float border; double k; }; // k: 0 for null, NaN for a part without function, else marks the part
struct CurveModel { std::vector<Part> v[2]; };
float apply_mark(double k, float x) { return (float)(k * 1000) + x; }
}
static std::vector<gamma_part*> parts_of(gamma& g, int dir) { return dir ? g.get_inverse_gamma_curve_parts() : g.get_gamma_curve_parts(); }
static void check_curve(Ctx& c, gamma& g, const CurveModel& m, const std::string& hist, const std::string& site) {
	for (int dir = 0; dir < 2; ++dir) {
		auto ps = parts_of(g, dir);
		std::multiset<gamma_part*> a(ps.begin(), ps.end()), b; for (auto& q : m.v[dir]) b.insert(q.p);
		c.event(std::string("part list ") + (dir ? "inverse" : "forward"));
		if (a != b) { c.fail(site + " part list", "%zu parts instead of %zu after %s", a.size(), b.size(), hist.c_str()); continue; }
		std::vector<float> xs = { 0, 1, -1, 2, NAN, INFINITY, -INFINITY };
		for (auto& q : m.v[dir]) { xs.push_back(q.border); xs.push_back(std::nextafter(q.border, 10.f)); xs.push_back(std::nextafter(q.border, -10.f)); }
		for (int k = 0; k < 4; ++k) xs.push_back((float)c.rng.range(-.2, 1.3));
		for (float x : xs) {
			float got = dir ? g.inverse_gamma_correction(x) : g.gamma_correction(x);
			float best = INFINITY; std::vector<float> ok; bool any = false;
			for (auto& q : m.v[dir]) if (q.k > 0 && x <= q.border) { // parts that apply
				if (!any || q.border < best) { ok.clear(); best = q.border; any = true; }
				if (q.border == best) ok.push_back(apply_mark(q.k, x));
			}
			if (!any) ok.push_back(x);
			bool good = false; for (float o : ok) if (o == got || (o != o && got != got)) good = true;
			c.event(any ? "value in a part" : "value outside all parts");
			if (!good) c.fail(site + (dir ? " inverse" : " forward"), "value %.9g gives %.9g instead of %.9g after %s", x, got, ok[0], hist.c_str());
		}
	}
}
static float plain1(float x) { return x / 2; }
static float plain2(float x) { return x / 3; }
static void gamma_history(Ctx& c) {
	std::vector<gamma*> curves; std::vector<CurveModel> models; std::vector<gamma_part*> mine;
	auto fresh = [&]() -> Part {
		if (c.rng.chance(.06)) return Part{ nullptr, 0, 0 };
		float b = c.rng.chance(.3) ? c.rng.below(5) / 4.f : c.rng.chance(.1) ? (c.rng.chance(.5) ? INFINITY : -1.f) : (float)c.rng.u();
		if (c.rng.chance(.08)) { auto p = new gamma_part(); p->set_upper_border(b); mine.push_back(p); return Part{ p, b, NAN }; }
		double k = 1 + (double)mine.size();
		auto f = [k](float x) { return apply_mark(k, x); };
		gamma_part* p;
		switch (c.rng.below(4)) {
		case 0: p = new gamma_part(f); p->set_upper_border(b); break;
		case 1: { gamma_part q(f, b); p = new gamma_part(q); break; }
		case 2: { gamma_part q(f, b); p = new gamma_part(); *p = q; break; }
		default: p = new gamma_part(f, b);
		}
		if (c.rng.chance(.1)) { p->set_gamma_function(nullptr); p->set_gamma_function(f); }
		mine.push_back(p);
		if (p->get_upper_border() != b || !p->get_gamma_function()) c.fail("part value", "border %g instead of %g", p->get_upper_border(), b);
		return Part{ p, b, k };
	};
	auto ptrs = [](const std::vector<Part>& v) { std::vector<gamma_part*> r; for (auto& q : v) r.push_back(q.p); return r; };
	std::string hist;
	auto some = [&](int n) { std::vector<Part> v; for (int k = 0; k < n; ++k) v.push_back(fresh()); return v; };
	auto count = [&](int n) { return c.rng.chance(.05) ? 15 + c.rng.below(60) : c.rng.below(n); };
	CurveModel m; m.v[0] = some(count(4)); m.v[1] = some(count(4));
	curves.push_back(c.rng.chance(.2) ? (m.v[0].clear(), m.v[1].clear(), new gamma()) : new gamma(ptrs(m.v[0]), ptrs(m.v[1])));
	models.push_back(m); hist = sfmt("construct(%zu,%zu)", m.v[0].size(), m.v[1].size());
	for (int step = 0; step < 12; ++step) {
		size_t w = c.rng.below((int)curves.size()); gamma& g = *curves[w]; CurveModel& q = models[w]; int dir = c.rng.below(2);
		std::string op;
		Outcome o = attempt([&] {
			switch (c.rng.below(8)) {
			case 0: case 1: { Part p = fresh(); if (dir) g.add_inverse_gamma_curve_part(p.p); else g.add_gamma_curve_part(p.p); q.v[dir].push_back(p); op = "add"; break; }
			case 2: { auto v = some(count(5)); if (dir) g.set_inverse_gamma_curve_parts(ptrs(v)); else g.set_gamma_curve_parts(ptrs(v)); q.v[dir] = v; op = "set"; break; }
			case 3: case 4: {
				if (q.v[dir].empty()) break;
				auto list = parts_of(g, dir); if (list.empty()) { c.fail("history part list", "parts are missing after %s", hist.c_str()); break; } size_t at = c.rng.below((int)list.size()); gamma_part* victim = list[at];
				bool r = dir ? g.remove_inverse_gamma_curve_part(list.begin() + at) : g.remove_gamma_curve_part(list.begin() + at);
				for (size_t k = 0; k < q.v[dir].size(); ++k) if (q.v[dir][k].p == victim) { q.v[dir].erase(q.v[dir].begin() + k); break; }
				if (!r) c.fail("remove reports failure", "after %s", hist.c_str());
				op = "remove"; break; }
			case 6: { // a part that is not in the curve cannot be removed from it
				gamma_part foreign([](float x) { return x; }, .5f); std::vector<gamma_part*> list{ &foreign };
				if (dir ? g.remove_inverse_gamma_curve_part(list.begin()) : g.remove_gamma_curve_part(list.begin())) c.fail("remove of a foreign part", "reports success after %s", hist.c_str());
				op = "remove foreign"; break; }
			case 5: { if (curves.size() < 4) { curves.push_back(new gamma(g)); models.push_back(q); op = "copy"; } break; }
			default: { size_t z = c.rng.below((int)curves.size()); *curves[z] = g; CurveModel t = q; models[z] = t; op = "assign"; }
			}
		});
		hist += sfmt(" %s#%zu%c", op.c_str(), w, dir ? 'i' : 'f'); c.event("history step " + op);
		if (o.threw()) { c.fail("unexpected exception", "%s in %s", o.what.c_str(), hist.c_str()); break; }
		c.tick("gamma history");
		for (size_t z = 0; z < curves.size(); ++z) {
			check_curve(c, *curves[z], models[z], hist, "history");
			// equality is equality of the part lists
			for (size_t y = 0; y < curves.size(); ++y) {
				bool same = parts_of(*curves[z], 0) == parts_of(*curves[y], 0) && parts_of(*curves[z], 1) == parts_of(*curves[y], 1);
				const gamma& ca = *curves[z]; const gamma& cb = *curves[y];
				if (same && (!(ca == cb) || !(*curves[z] == *curves[y]))) c.fail("equality", "curves of the same parts differ after %s", hist.c_str());
				auto borders = [&](gamma* q, int d) { std::vector<float> v; for (auto p : parts_of(*q, d)) v.push_back(p ? p->get_upper_border() : NAN); std::sort(v.begin(), v.end(), [](float a, float b) { return a < b || (a == a && b != b); }); return v; };
				bool other = false; for (int d = 0; d < 2 && !same; ++d) { auto u = borders(curves[z], d), v = borders(curves[y], d); other = other || u.size() != v.size(); for (size_t k = 0; k < u.size() && !other; ++k) other = u[k] != v[k] && (u[k] == u[k] || v[k] == v[k]); }
				if (other && (ca == cb || *curves[z] == *curves[y])) c.fail("equality", "curves with different parts are equal after %s", hist.c_str());
				c.event(same ? "equal curves" : other ? "curves of different parts" : "curves of equal borders");
				if (!same && parts_of(*curves[z], 0).size() + parts_of(*curves[z], 1).size() != parts_of(*curves[y], 0).size() + parts_of(*curves[y], 1).size() && (*curves[z] == *curves[y])) c.fail("equality", "curves with different parts are equal after %s", hist.c_str());
				if ((ca == cb) == (ca != cb) || (*curves[z] == *curves[y]) == (*curves[z] != *curves[y])) c.fail("equality", "== and != agree after %s", hist.c_str());
			}
		}
		uint64_t h = 0; for (auto& e : models) for (auto& v : e.v) { h = h * 131 + 7; for (auto& p : v) h = h * 31 + (uint64_t)(int64_t)(clampd(p.border, -1, 2) * 64) + (p.k > 0) * 3; } c.cover("history", h);
	}
	c.sample("%s", hist.c_str());
	for (auto g : curves) delete g;
	for (auto p : mine) delete p;
}
PROPERTY(C09) {
	c.rule = "a case is (a) one step of a random history of part additions, removals, replacements, copies and assignments over up to four curves, after which every curve is evaluated at all borders, their neighbours and random values and compared with a model of the part rule, or (b) one value sent through a preset curve in both directions and compared with the published transfer function; distinct = curve states and (preset, value)";
	static const char* nm[] = { "1.8", "2.2", "2.6", "2.8", "sRGB", "Adobe", "ROMM", "UHDTV" };
	extern gamma* preset_gamma(Gam);
	int n = c.scale(80000, 3000000);
	static const double joints[][2] = { { -1, -1 }, { -1, -1 }, { -1, -1 }, { -1, -1 }, { .0031308, .04045 }, { -1, -1 }, { .001953, .031248 }, { .018053968510807, .081 } };
	for (int g = 0; g < 8; ++g) {
		gamma* cur = preset_gamma((Gam)g); RS ref; ref.g = (Gam)g; std::string site = std::string("preset ") + nm[g];
		const double* J = joints[g];
		auto near = [&](double x, double j, double w) { return j > 0 && std::fabs(x - j) < w; };
		int per = n / 8 + 1;
		for (int k = 0; k < per; ++k) {
			float x = k < 260 ? k / 255.f : c.rng.chance(.1) ? (float)std::pow(10, -6 * c.rng.u()) : J[0] > 0 && c.rng.chance(.2) ? (float)(J[c.rng.below(2)] * c.rng.range(.98, 1.02)) : (float)c.rng.u();
			if (x > 1) { // not covered
				if (cur->gamma_correction(x) != x || cur->inverse_gamma_correction(x) != x) c.fail(site + " beyond 1", "%g", x);
				continue;
			}
			c.tick("preset curve"); c.event(site); c.cover(site, (uint64_t)(x * 65536));
			float e = cur->gamma_correction(x), d = cur->inverse_gamma_correction(x);
			double re = ref.enc(x), rd = ref.dec(x);
			// within a step of the joint either branch may be meant
			double te = 2e-6 + 3e-7 * 2 / std::max(1e-6, std::pow(std::max((double)x, 1e-6), .6)) * x, td = 2e-6;
			if (near(x, J[0], 2e-6)) te += 1e-3; if (near(x, J[1], 2e-5)) td += 1e-3;
			if (!(std::fabs(e - re) <= te)) c.fail(site + " correction", "%.9g -> %.9g, published %.9g", x, e, re);
			if (!(std::fabs(d - rd) <= td)) c.fail(site + " inverse correction", "%.9g -> %.9g, published %.9g", x, d, rd);
			float de = cur->inverse_gamma_correction(e), ed = cur->gamma_correction(d);
			double slack = g == GAUHDTV ? 4e-4 : g == GAROMM || g == GASRGB ? 2e-5 : 0; // published constants are rounded at the joint
			double tj = (near(x, J[0], .02 * J[0] + 1e-9) ? slack : 0), tj2 = near(x, J[1], .02 * J[1] + 1e-9) ? slack * 4.5 : 0;
			if (g == GAUHDTV) { tj = x < .025 && x > .015 ? 3e-4 : 0; tj2 = x < .1 && x > .07 ? 2e-3 : 0; }
			if (!(std::fabs(de - x) <= 3e-6 + tj)) c.fail(site + " inverse of correction", "%.9g -> %.9g -> %.9g", x, e, de);
			double cond = x < 1e-3 ? 2e-4 : 6e-6; // the encoding is steep near black
			if (!(std::fabs(ed - x) <= cond + tj2)) c.fail(site + " correction of inverse", "%.9g -> %.9g -> %.9g", x, d, ed);
			// monotonic
			float y = c.rng.chance(.5) ? std::min(1.f, x + (float)std::pow(10, -6 * c.rng.u())) : (float)c.rng.u(); if (y < x) { std::swap(x, y); }
			double mt = g == GAUHDTV ? 3e-4 : 1e-6; if (!(J[0] > 0)) mt = 2e-7; if (g == GASRGB) mt = 1e-6; if (g == GAROMM) mt = 2e-5;
			if (!(cur->gamma_correction(x) <= cur->gamma_correction(y) + mt) || !(cur->inverse_gamma_correction(x) <= cur->inverse_gamma_correction(y) + mt)) c.fail(site + " not monotonic", "%.9g and %.9g", x, y);
			if (k < 2) c.sample("%s: %.9g -> %.9g, inverse %.9g", site.c_str(), x, e, d);
		}
		if (!(cur->gamma_correction(0) == 0 || std::fabs(cur->gamma_correction(0)) < 1e-6) || std::fabs(cur->gamma_correction(1) - 1) > 1e-6 || std::fabs(cur->inverse_gamma_correction(1) - 1) > 1e-6 || std::fabs(cur->inverse_gamma_correction(0)) > 1e-6) c.fail(site + " end points", "%g %g", cur->gamma_correction(0), cur->gamma_correction(1));
		delete cur;
	}
	int h = c.scale(8000, 400000);
	for (int k = 0; k < h; ++k) gamma_history(c);
	// ordering of parts
	for (int k = 0; k < 200; ++k) {
		float b1 = c.rng.below(4) / 4.f, b2 = c.rng.below(4) / 4.f; gamma_part p([](float x) { return x; }, b1), q([](float x) { return x; }, b2); const gamma_part& cp = p, & cq = q;
		c.tick("part comparison"); c.event("part comparison");
		if ((p < q) != (b1 < b2) || (p > q) != (b1 > b2) || (p <= q) != (b1 <= b2) || (p >= q) != (b1 >= b2) || (cp < cq) != (b1 < b2) || (cp > cq) != (b1 > b2) || (cp <= cq) != (b1 <= b2) || (cp >= cq) != (b1 >= b2)) c.fail("part ordering", "%g %g", b1, b2);
		gamma_part r(p), e; const gamma_part& cr = r; e.set_upper_border(b1);
		if (!(r == p) || r != p || !(cr == cp) || cr != cp || (b1 != b2 && (cp == cq || !(cp != cq) || p == q || !(p != q)))) c.fail("part equality", "%g %g", b1, b2);
		// a part without a function is another part than one with a function; plain functions are compared as such
		gamma_part f(&plain1, b1), g(&plain1, b2), h(&plain2, b1); const gamma_part& cf = f, & cg = g, & ch = h, & ce = e;
		if ((f == g) != (b1 == b2) || (cf == cg) != (b1 == b2) || (f != g) == (b1 == b2) || (cf != cg) == (b1 == b2) || f == h || cf == ch || !(f != h) || !(cf != ch) || e == f || ce == cf || !(e != p) || !(ce != cp)) c.fail("part equality", "plain functions, %g %g", b1, b2);
	}
}

// ---- C10 ------------------------------------------------------------------------------------------------------------
static void mat9(const matrix<float>& m, double* o) { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o[i * 3 + j] = m(i, j); }
static bool check_space(Ctx& c, rgb_color_space_definition* d, const RS& ref, white_point* w, gamma* g, const std::string& site, const std::string& name, double tol = 3e-5) {
	c.event(site);
	double M[9], Mi[9]; auto m = d->get_transform_matrix(), mi = d->get_inverse_transform_matrix();
	if (m.rows() != 3 || m.columns() != 3 || mi.rows() != 3 || mi.columns() != 3) { c.fail(site + " shape", "%s", name.c_str()); return false; }
	mat9(m, M); mat9(mi, Mi);
	bool ok = true; auto bad = [&](const char* what, double got, double exp) { ok = false; c.fail(site + " " + what, "%s: %.9g instead of %.9g", name.c_str(), got, exp); };
	if (w && d->get_white_point() != w) bad("white pointer", 0, 1);
	if (g && d->get_gamma_curve() != g) bad("curve pointer", 0, 1);
	auto tri = d->get_white_point()->get_tristimulus();
	double big = 0; for (double x : Mi) big = std::max(big, std::fabs(x));
	for (int i = 0; i < 3; ++i) { double s = M[i * 3] + M[i * 3 + 1] + M[i * 3 + 2]; if (!(std::fabs(s - ref.W[i]) <= tol) || std::fabs(tri[i] - ref.W[i]) > 1e-6) bad("white", s, ref.W[i]); }
	const double px[3][2] = { { ref.rx, ref.ry }, { ref.gx, ref.gy }, { ref.bx, ref.by } };
	std::array<float, 3> cc[3] = { d->get_red_chromaticity_coordinate(), d->get_green_chromaticity_coordinate(), d->get_blue_chromaticity_coordinate() };
	float ax[3][3] = { { d->get_red_x(), d->get_red_y(), d->get_red_z() }, { d->get_green_x(), d->get_green_y(), d->get_green_z() }, { d->get_blue_x(), d->get_blue_y(), d->get_blue_z() } };
	for (int j = 0; j < 3; ++j) {
		double s = M[j] + M[3 + j] + M[6 + j], e[3] = { px[j][0], px[j][1], 1 - px[j][0] - px[j][1] };
		for (int i = 0; i < 3; ++i) {
			if (!(std::fabs(M[i * 3 + j] - e[i] * s) <= tol)) bad("primary chromaticity", M[i * 3 + j] / s, e[i]);
			if (std::fabs(cc[j][i] - e[i]) > 2e-7 || ax[j][i] != cc[j][i]) bad("stored primary", cc[j][i], e[i]);
			if (!(std::fabs(M[i * 3 + j] - ref.M[i * 3 + j]) <= tol)) bad("matrix", M[i * 3 + j], ref.M[i * 3 + j]);
			double p = 0; for (int k = 0; k < 3; ++k) p += M[i * 3 + k] * Mi[k * 3 + j];
			if (!(std::fabs(p - (i == j)) <= tol + 1e-6 * big)) bad("matrix times inverse", p, i == j);
			p = 0; for (int k = 0; k < 3; ++k) p += Mi[i * 3 + k] * M[k * 3 + j];
			if (!(std::fabs(p - (i == j)) <= tol + 1e-6 * big)) bad("inverse times matrix", p, i == j);
		}
	}
	return ok;
}
static RS with_white(RS r, white_point* w) { auto t = w->get_tristimulus(); auto x = w->get_chromaticity_coordinate(); for (int i = 0; i < 3; ++i) r.W[i] = t[i]; r.wx = x[0]; r.wy = x[1]; r.derive(); return r; }
static white_point* some_white(Ctx& c) {
	if (c.rng.chance(.6)) { white_point_presets p; return (p.*c.rng.pick(wps()).fn)(); }
	if (c.rng.chance(.5)) return new white_point((float)c.rng.range(.26, .46), (float)c.rng.range(.28, .42));
	double k = c.rng.chance(.3) ? c.rng.range(.2, 1.1) : 1; // whites of another luminance than 1 too
	return new white_point((float)(k * c.rng.range(.8, 1.15)), (float)k, (float)(k * c.rng.range(.3, 1.4)));
}
// Spaces can be assigned as well as copied (by the assignment the compiler generates).
template <class D> static auto assign_space(D& a, D& b, int) -> decltype(a = b, true) { a = b; return true; }
template <class D> static bool assign_space(D&, D&, long) { return false; }
// The conversions of a space must follow its current state.
static void check_use(Ctx& c, rgb_color_space_definition* d, RS ref, const std::string& site) {
	mat9(d->get_transform_matrix(), ref.M); mat9(d->get_inverse_transform_matrix(), ref.Mi); // which check_space compares with the derived ones
	V rgb{ fl_(c.rng.u()), fl_(c.rng.u()), fl_(c.rng.u()) }; Pool P;
	color_base* in = P(make(RGBD, rgb, 1, d)); T t = (T)(XYZ_ + c.rng.below(5));
	color_base* o = P(generic_convert(in, t)); c.event("conversion after change");
	Close q = close(comps(o), [&](const V& v) { return ref_conv(RGBD, t, v, ref); }, rgb, comps_of(RGBD), comps_of(t));
	if (!q.ok) c.fail(site + " use " + TNAME[t], "%s -> %s, expected %s", show(in).c_str(), show(o).c_str(), show(q.exp).c_str());
	if (t >= LUV_ && (q.exp[0] < .1 || q.ill)) return;
	color_base* b = P(generic_convert(o, RGBD));
	V back = ref_conv(t, RGBD, comps(o), ref);
	Close q2 = close(comps(b), [&](const V& v) { return ref_conv(t, RGBD, v, ref); }, comps(o), comps_of(t), comps_of(RGBD));
	if (!q2.ok) c.fail(site + " use back " + TNAME[t], "%s -> %s, expected %s", show(o).c_str(), show(b).c_str(), show(back).c_str());
}
PROPERTY(C10) {
	c.rule = "a case is one RGB space (20 presets and random ones) or one step of a random history of copying, white point and curve replacement over up to four spaces, after which all spaces are checked against matrices derived in double precision and used for conversions; distinct = (space, history state)";
	uint64_t id = 0;
	for (auto& sp : presets()) if (c.mine(id++)) {
		c.tick("preset space"); c.cover(sp.name, 0); c.sample("preset %s", sp.name.c_str());
		check_space(c, sp.def, *sp.ref, nullptr, nullptr, "preset " + sp.name, sp.name);
		auto cc = sp.def->get_white_point()->get_chromaticity_coordinate(); if (std::fabs(cc[0] - sp.ref->wx) > 6e-5 || std::fabs(cc[1] - sp.ref->wy) > 6e-5) c.fail("preset " + sp.name + " white chromaticity", "%g %g", cc[0], cc[1]);
		for (int k = 0; k <= 400; ++k) {
			float x = k / 400.f; double e = sp.def->get_gamma_curve()->gamma_correction(x), d = sp.def->get_gamma_curve()->inverse_gamma_correction(x); c.event("preset curve value");
			if (!(std::fabs(e - sp.ref->enc(x)) < 2e-5) || !(std::fabs(d - sp.ref->dec(x)) < 2e-5)) c.fail("preset " + sp.name + " curve", "%g: %g %g, published %g %g", x, e, d, sp.ref->enc(x), sp.ref->dec(x));
		}
		for (int k = 0; k < 50; ++k) check_use(c, sp.def, *sp.ref, "preset " + sp.name);
	}
	int n = c.scale(2600, 160000);
	for (int k = 0; k < n; ++k) {
		struct Live { rgb_color_space_definition* d; RS ref; white_point* w; gamma* g; };
		std::vector<Live> live; std::string hist;
		Space sp; bool fresh = c.rng.chance(.3);
		if (fresh) sp = random_space(c.rng, c.rng.chance(.3)); else sp = pick_space(c);
		auto wp0 = sp.def->get_white_point(); auto g0 = sp.def->get_gamma_curve();
		const RS& R = *sp.ref;
		rgb_color_space_definition* d0 = c.rng.chance(.5) ? new rgb_color_space_definition(std::array<float, 2>{ { (float)R.rx, (float)R.ry } }, std::array<float, 2>{ { (float)R.gx, (float)R.gy } }, std::array<float, 2>{ { (float)R.bx, (float)R.by } }, wp0, g0)
			: new rgb_color_space_definition((float)R.rx, (float)R.ry, (float)R.gx, (float)R.gy, (float)R.bx, (float)R.by, wp0, g0);
		live.push_back(Live{ d0, R, wp0, g0 }); hist = "construct " + sp.name;
		c.tick("space history");
		guarded(c, "space history", [&] { return hist; }, [&] {
			check_space(c, sp.def, R, wp0, g0, "original", hist, 4e-5);
			for (int step = 0; step < 8; ++step) {
				size_t z = c.rng.below((int)live.size()); Live& L = live[z];
				switch (c.rng.below(6)) {
				case 5: { size_t y = c.rng.below((int)live.size()); Live& O = live[y]; if (assign_space(*L.d, *O.d, 0)) { c.event("space assigned"); auto d = L.d; L = O; L.d = d; hist += sfmt(" #%zu=#%zu", z, y); } break; }
				case 4: { // the white point the space already has, changed in place (when no other space uses it), is given to it again
					int users = L.w == wp0; for (auto& q : live) users += q.w == L.w;
					if (users == 1) { white_point* w = some_white(c); *L.w = *w; delete w; c.event("white point edited and given again"); } else c.event("same white point given again");
					L.d->set_white_point(L.w); if (users == 1) L.ref = with_white(L.ref, L.w); hist += sfmt(" same white#%zu", z); break; }
				case 0: if (live.size() < 4) { Live q = L; q.d = new rgb_color_space_definition(*L.d); live.push_back(q); hist += sfmt(" copy#%zu", z); } break;
				case 1: case 2: { white_point* w = some_white(c); L.d->set_white_point(w); L.w = w; L.ref = with_white(L.ref, w); hist += sfmt(" white#%zu", z); break; }
				default: { extern gamma* preset_gamma(Gam); if (c.rng.chance(.15)) { L.g = c.rng.chance(.5) ? new gamma() : new gamma(std::vector<gamma_part*>{ nullptr, new gamma_part() }, std::vector<gamma_part*>{ new gamma_part(nullptr, .5f) }); L.d->set_gamma_curve(L.g); L.ref.g = GACUSTOM; L.ref.gexp = 1; hist += sfmt(" no curve#%zu", z); break; } // without parts nothing is changed
					if (c.rng.chance(.1)) { L.g = new gamma(*L.g); L.d->set_gamma_curve(L.g); hist += sfmt(" copied curve#%zu", z); break; }
					Gam g = (Gam)c.rng.below(8); L.g = preset_gamma(g); L.d->set_gamma_curve(L.g); L.ref.g = g; hist += sfmt(" curve#%zu", z); }
				}
				c.event("space history step"); ++c.evals;
				for (auto& q : live) {
					if (!check_space(c, q.d, q.ref, q.w, q.g, "history", hist, 6e-5)) return;
					check_use(c, q.d, q.ref, "history");
				}
			}
			// the space the history started from is untouched
			check_space(c, sp.def, R, wp0, g0, "original after history", hist, 4e-5);
		});
		uint64_t h = std::hash<std::string>()(hist); c.cover("space", h); c.sample("%s", hist.c_str());
		for (auto& q : live) delete q.d;
	}
}

// ---- C11 ------------------------------------------------------------------------------------------------------------
PROPERTY(C11) {
	c.rule = "a case is one preset illuminant or one white point constructed from random chromaticity and/or tristimulus values; distinct = (constructor, value buckets)";
	uint64_t id = 0;
	auto chk = [&](const std::string& site, double got, double exp, double tol, const std::string& what) { if (!(std::fabs(got - exp) <= tol)) c.fail(site, "%s: %.9g instead of %.9g", what.c_str(), got, exp); };
	for (auto& w : wps()) {
		id++;
		white_point_presets p; white_point* q = (p.*w.fn)(); c.tick("preset white"); c.event("preset"); c.cover(w.name, 1);
		std::string s = std::string("preset ") + w.name; auto t = q->get_tristimulus(), x = q->get_chromaticity_coordinate();
		chk(s, t[0], w.X, 2e-6, "X"); chk(s, t[1], 1, 2e-6, "Y"); chk(s, t[2], w.Z, 2e-6, "Z"); chk(s, x[0], w.x, 2e-6, "x"); chk(s, x[1], w.y, 2e-6, "y"); chk(s, x[2], 1 - w.x - w.y, 2e-6, "z");
		// the two descriptions agree within the four published digits
		chk(s + " agreement", t[0] / (t[0] + t[1] + t[2]), x[0], 4e-4, "x"); chk(s + " agreement", t[1] / (t[0] + t[1] + t[2]), x[1], 4e-4, "y");
		if (q->get_tristimulus_x() != t[0] || q->get_tristimulus_y() != t[1] || q->get_tristimulus_z() != t[2] || q->get_chromaticity_x() != x[0] || q->get_chromaticity_y() != x[1] || q->get_chromaticity_z() != x[2]) c.fail(s + " accessors", "single accessors differ");
		white_point* again = (p.*w.fn)(); if (!(*again == *q) || again == nullptr) c.fail(s + " repeat", "differs"); delete again;
		c.sample("%s tristimulus %g %g %g chromaticity %g %g", w.name, t[0], t[1], t[2], x[0], x[1]);
		delete q;
	}
	int n = c.scale(400000, 20000000);
	for (int k = 0; k < n; ++k) {
		double x = fl_(c.rng.range(.02, .8)), y = fl_(c.rng.range(.02, .95)); if (c.rng.chance(.5)) { x = fl_(c.rng.range(.25, .46)); y = fl_(c.rng.range(.27, .42)); }
		bool imaginary = c.rng.chance(.15); // whites outside the spectral locus, with negative or no X or Z
		if (imaginary) { x = fl_(c.rng.chance(.2) ? 0 : c.rng.range(-1, 2)); y = fl_(c.rng.range(.02, 2)); c.event("imaginary white"); }
		if (!imaginary && x + y > .999) continue;
		double X = fl_(c.rng.range(.01, 2)), Y = c.rng.chance(.5) ? 1 : fl_(c.rng.range(.01, 100)), Z = fl_(c.rng.range(.01, 2)); if (Y != 1) { X = fl_(X * Y); Z = fl_(Z * Y); }
		if (imaginary) { for (double* q : { &X, &Z }) if (c.rng.chance(.5)) *q *= c.rng.chance(.4) ? 0 : -1; if (c.rng.chance(.2)) for (double* q : { &X, &Y, &Z }) *q = fl_(*q * 1e-4); if (std::fabs(X + Y + Z) < .2 * (std::fabs(X) + Y + std::fabs(Z))) continue; }
		c.tick("white point"); c.event("constructed"); c.cover(bucket(V{ x, y, X / Y, Z / Y }, { { 0, 1 }, { 0, 1 }, { 0, 2 }, { 0, 2 } }, 32));
		white_point a((float)x, (float)y), b((float)X, (float)Y, (float)Z), d((float)X, (float)Y, (float)Z, (float)x, (float)y), e(std::array<float, 3>{ { (float)X, (float)Y, (float)Z } }, std::array<float, 2>{ { (float)x, (float)y } });
		std::string in = sfmt("x=%.9g y=%.9g X=%.9g Y=%.9g Z=%.9g", x, y, X, Y, Z);
		auto rel = [&](const char* site, double got, double exp, double unit = 0) { chk(site, got, exp, 1e-6 * std::max(unit, std::fabs(exp)), in); };
		auto at = a.get_tristimulus(), ac = a.get_chromaticity_coordinate();
		const double u = 1 + std::fabs(x) + y;
		rel("from chromaticity X", at[0], x / y, u / y); rel("from chromaticity Y", at[1], 1); rel("from chromaticity Z", at[2], (1 - x - y) / y, u / y);
		rel("from chromaticity x", ac[0], x); rel("from chromaticity y", ac[1], y); rel("from chromaticity z", ac[2], 1 - x - y, 1 + std::fabs(x) + y);
		auto bt = b.get_tristimulus(), bc = b.get_chromaticity_coordinate(); double S = X + Y + Z;
		rel("from tristimulus X", bt[0], X); rel("from tristimulus Y", bt[1], Y); rel("from tristimulus Z", bt[2], Z);
		const double us = imaginary ? 10 : 0; rel("from tristimulus x", bc[0], X / S, us); rel("from tristimulus y", bc[1], Y / S, us); rel("from tristimulus z", bc[2], Z / S, us);
		for (white_point* q : { &a, &b, &d, &e }) {
			auto qc = q->get_chromaticity_coordinate(), qt = q->get_tristimulus(); chk("sum of chromaticity", (double)qc[0] + qc[1] + qc[2], 1, 1e-6 * std::max(1., std::fabs((double)qc[0]) + std::fabs((double)qc[1]) + std::fabs((double)qc[2])), in);
			if (q->get_tristimulus_x() != qt[0] || q->get_tristimulus_y() != qt[1] || q->get_tristimulus_z() != qt[2] || q->get_chromaticity_x() != qc[0] || q->get_chromaticity_y() != qc[1] || q->get_chromaticity_z() != qc[2]) c.fail("accessors", "%s", in.c_str());
		}
		if (!(d == e) || d != e) c.fail("array constructor", "%s", in.c_str());
		auto dt = d.get_tristimulus(), dc = d.get_chromaticity_coordinate();
		if (dt[0] != (float)X || dt[1] != (float)Y || dt[2] != (float)Z || dc[0] != (float)x || dc[1] != (float)y) c.fail("given both", "%s", in.c_str());
		auto s1 = white_point::tristimulus_to_chromaticity_coordinate(bt); for (int i = 0; i < 3; ++i) rel("static to chromaticity", s1[i], (i == 0 ? X : i == 1 ? Y : Z) / S, us);
		float YY = (float)c.rng.range(.1, 100); auto s2 = white_point::chromaticity_coordinate_to_tristimulus(ac, YY); rel("static to tristimulus", s2[0], YY * x / y, YY * u / y); rel("static to tristimulus", s2[1], YY); rel("static to tristimulus", s2[2], YY * (1 - x - y) / y, YY * u / y);
		auto s3 = white_point::chromaticity_coordinate_to_tristimulus(ac); for (int i = 0; i < 3; ++i) if (s3[i] != at[i]) c.fail("static default Y", "%s", in.c_str());
		// copies and equality
		white_point f(d); const white_point& cf = f; const white_point& cd = d;
		if (!(f == d) || f != d || !(cf == cd) || cf != cd || f.get_tristimulus() != dt || f.get_chromaticity_coordinate() != dc) c.fail("copy", "%s", in.c_str());
		float v[5] = { (float)X, (float)Y, (float)Z, (float)x, (float)y }; int which = c.rng.below(5); v[which] = std::nextafter(v[which], 1000.f);
		white_point o(v[0], v[1], v[2], v[3], v[4]); const white_point& co = o;
		if (o == d || !(o != d) || co == cd || !(co != cd)) c.fail("equality of different values", "%s value %d", in.c_str(), which);
		f = o; if (!(f == o) || d.get_tristimulus() != dt) c.fail("assignment", "%s", in.c_str());
		c.sample("%s: (x,y) -> X=%g Z=%g; (X,Y,Z) -> x=%g y=%g", in.c_str(), at[0], at[2], bc[0], bc[1]);
	}
}

// ---- C12 ------------------------------------------------------------------------------------------------------------
namespace {
typedef long double ld;
struct M { int r, c; std::vector<ld> v; ld& at(int i, int j) { return v[(size_t)i * c + j]; } ld at(int i, int j) const { return v[(size_t)i * c + j]; } M(int R = 0, int C = 0, ld x = 0) : r(R), c(C), v((size_t)R * C, x) {} };
// determinant by elimination (an algorithm unlike the one under test), and the same for absolute values by expansion (an
// upper bound of the sum of absolute products, for tolerances)
ld perm(const M& a);
ld det(M a) {
	if (perm(a) == 0) return 0; // no product without a zero factor
	ld d = 1;
	for (int k = 0; k < a.r; ++k) {
		int p = k; for (int i = k + 1; i < a.r; ++i) if (std::fabs(a.at(i, k)) > std::fabs(a.at(p, k))) p = i;
		if (a.at(p, k) == 0) return 0;
		if (p != k) { d = -d; for (int j = 0; j < a.r; ++j) std::swap(a.at(p, j), a.at(k, j)); }
		d *= a.at(k, k);
		for (int i = k + 1; i < a.r; ++i) { ld f = a.at(i, k) / a.at(k, k); for (int j = k; j < a.r; ++j) a.at(i, j) -= f * a.at(k, j); }
	}
	return d;
}
ld perm(const M& a) { // permanent of absolute values
	if (a.r == 0) return 1; ld s = 0;
	std::vector<ld> dp(1u << a.r, 0); dp[0] = 1;
	for (unsigned m = 0; m < (1u << a.r); ++m) { int row = __builtin_popcount(m); if (row >= a.r) continue; for (int j = 0; j < a.r; ++j) if (!(m >> j & 1)) dp[m | 1u << j] += dp[m] * std::fabs(a.at(row, j)); }
	s = dp[(1u << a.r) - 1]; return s;
}
M minor_of(const M& a, int i, int j) { M q(a.r - 1, a.r - 1); for (int r = 0, y = 0; r < a.r; ++r) if (r != i) { for (int k = 0, x = 0; k < a.r; ++k) if (k != j) q.at(y, x++) = a.at(r, k); ++y; } return q; }
template <class X> struct Eps { static constexpr double e = 0; };
template <> struct Eps<float> { static constexpr double e = 4e-7; };
template <> struct Eps<double> { static constexpr double e = 1e-15; };
template <class X> M model(const matrix<X>& m) { M q(m.rows(), m.columns()); auto v = m.values(); for (int i = 0; i < q.r; ++i) for (int j = 0; j < q.c; ++j) q.at(i, j) = v[i][j]; return q; }
template <class X> std::string bits(const matrix<X>& m) { std::string s = sfmt("%d %d ", m.rows(), m.columns()); for (auto& r : m.values()) { s += sfmt("[%zu]", r.size()); for (X x : r) s.append((const char*)&x, sizeof x); } return s; }
std::string show(const M& m) { std::string s = sfmt("%dx%d[", m.r, m.c); for (size_t k = 0; k < m.v.size() && k < 25; ++k) s += sfmt(k && k % m.c == 0 ? "; %.7Lg" : " %.7Lg", m.v[k]); return s + "]"; }
template <class X> struct Mon {
	Ctx& c; std::string tn;
	bool shape_ok(const std::string& site, const matrix<X>& got, int r, int k) {
		auto v = got.values(); bool ok = got.rows() == r && got.columns() == k && got.size() == r * k && (int)v.size() == r; for (auto& q : v) if ((int)q.size() != k) ok = false;
		c.event(site); if (!ok) c.fail(site + " shape", "%dx%d instead of %dx%d", got.rows(), got.columns(), r, k); return ok;
	}
	void same(const std::string& site, const matrix<X>& got, const M& exp, const M& tol, const std::string& what) {
		if (!shape_ok(site, got, exp.r, exp.c)) return;
		auto v = got.values(); for (int i = 0; i < exp.r; ++i) for (int j = 0; j < exp.c; ++j) {
			if (!(std::fabs((ld)v[i][j] - exp.at(i, j)) <= tol.at(i, j))) { c.fail(site, "element (%d,%d) is %.9g instead of %.9Lg, %s", i, j, (double)v[i][j], exp.at(i, j), what.c_str()); return; }
			if (got(i, j) != v[i][j]) { c.fail(site + " access", "(%d,%d)", i, j); return; }
		}
	}
	M rel(const M& e, ld k = 1) { M t = e; for (auto& x : t.v) x = std::fabs(x) * Eps<X>::e * k; return t; }
	X num() { if (std::is_integral<X>::value) return (X)(c.rng.below(13) - 6); return c.rng.chance(.25) ? (X)(c.rng.below(5) - 2) : (X)(c.rng.range(-3, 3)); }
	matrix<X> rand(int r, int k) {
		matrix<X> m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = num();
		if (r > 1 && k > 1 && c.rng.chance(.15)) { int a = c.rng.below(r), b = c.rng.below(r); for (int j = 0; j < k; ++j) m(a, j) = c.rng.chance(.3) ? 0 : m(b, j); }
		if (r > 1 && k > 1 && c.rng.chance(.1)) { int a = c.rng.below(k), b = c.rng.below(k); for (int i = 0; i < r; ++i) m(i, a) = m(i, b); }
		if (r > 1 && k > 1 && c.rng.chance(.08)) { // two rows or columns that differ by the least possible amount in one place
			bool row = c.rng.chance(.5); int a = c.rng.below(row ? r : k), b = c.rng.below(row ? r : k), j = c.rng.below(row ? k : r);
			for (int i = 0; i < (row ? k : r); ++i) { if (row) m(a, i) = m(b, i); else m(i, a) = m(i, b); }
			X& x = row ? m(a, j) : m(j, a); x = std::is_integral<X>::value ? (X)(x + 1) : (X)(x == 0 ? Eps<X>::e : x * (1 + 2 * Eps<X>::e));
		}
		if (c.rng.chance(.05)) m.fill(0);
		if (!std::is_integral<X>::value && c.rng.chance(.15)) { X s = (X)std::pow(10, sizeof(X) == 8 && c.rng.chance(.5) ? c.rng.range(-30, 30) : c.rng.range(-4, 4)); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) *= s; } // another scale
		return m;
	}
	template <class F> void rejects(const std::string& site, matrix<X>& m, F f) {
		std::string b = bits(m); Outcome o = attempt(f); c.event("rejected " + site);
		if (!o.threw()) c.fail(site + " accepted", "%s", ::show(V()).c_str()); else if (o.k == Outcome::FOREIGN) c.fail(site + " foreign exception", " ");
		if (bits(m) != b) c.fail(site + " changed the matrix", "%s", show(model(m)).c_str());
	}
	void equal(const matrix<X>& a, const matrix<X>& b, const std::string& what) { // equality means shape and elements
		M x = model(a), y = model(b); bool e = x.r == y.r && x.c == y.c && x.v == y.v; matrix<X> p(a); c.event("equality");
		if ((a == b) != e || (b == a) != e || (p == b) != e) c.fail("equality", "%s and %s are %s, %s", show(x).c_str(), show(y).c_str(), e ? "equal" : "different", what.c_str());
	}
	void empties() { // shapes without elements
		int r = c.rng.below(3) ? c.rng.below(6) : 0, k = r && c.rng.chance(.5) ? 0 : r ? c.rng.below(5) : c.rng.below(5); if (r && k) k = 0; int q = c.rng.below(5);
		matrix<X> a(r, k), b(r, k), d(k, q); std::string what = sfmt("%dx%d", r, k); M e(r, k);
		shape_ok("empty construct", a, r, k); same("empty sum", a + b, e, e, what); same("empty difference", a - b, e, e, what); same("empty times", a * (X)2, e, e, what); same("empty plus", a + (X)2, e, e, what); same("empty divided", a / (X)2, e, e, what); same("empty transpose", a.transpose(), M(k, r), M(k, r), what);
		same("empty product", a * d, M(r, q), M(r, q), what); auto v = a * std::vector<X>(k); if ((int)v.size() != r) c.fail("empty vector product", "%s", what.c_str()); else for (X x : v) if (x != 0) c.fail("empty vector product", "%s", what.c_str());
		equal(a, b, what); equal(a, matrix<X>(r, k + 1), what); equal(a, matrix<X>(r + 1, k), what); equal(a, matrix<X>(k, r), what); equal(a, matrix<X>(), what);
		matrix<X> z = rand(1 + c.rng.below(4), 1 + c.rng.below(4)); z = a; same("empty assigned", z, e, e, what); z = rand(2, 3); z.resize(r, k); same("resized to empty", z, e, e, what);
		X x = num(); z.resize(2, 3, x); same("empty grown", z, M(2, 3, x), M(2, 3), what);
		rejects("empty index", a, [&] { a(0, k) = 1; }); rejects("empty index", a, [&] { a(r, 0) = 1; }); rejects("empty product of another shape", a, [&] { auto w = a * matrix<X>(k + 1, 2); }); rejects("empty sum of another shape", a, [&] { auto w = a + matrix<X>(r, k + 1); });
		a.fill(1); same("empty fill", a, e, e, what); std::vector<X> none; a.insert(none); same("empty insert", a, e, e, what);
		c.cover("empty " + tn, (uint64_t)r * 10 + k);
	}
	void algebra(int r, int k, int k2) {
		matrix<X> a = rand(r, k), b = rand(r, k), d = rand(k, k2); M A = model(a), B = model(b), D = model(d); X s = c.rng.chance(.4) ? (X)(c.rng.below(3) - 1) : num();
		std::string ba = bits(a), bb = bits(b), bd = bits(d), what = "a=" + show(A) + " b=" + show(B);
		M e(r, k), t; auto each = [&](std::function<ld(int, int)> f) { for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) e.at(i, j) = f(i, j); };
		each([&](int i, int j) { return A.at(i, j) + B.at(i, j); }); same("sum", a + b, e, rel(e), what);
		{ matrix<X> q(a); q += b; same("+=", q, e, rel(e), what); }
		each([&](int i, int j) { return A.at(i, j) - B.at(i, j); }); same("difference", a - b, e, rel(e), what);
		{ matrix<X> q(a); q -= b; same("-=", q, e, rel(e), what); }
		each([&](int i, int j) { return A.at(i, j) + s; }); same("plus scalar", a + s, e, rel(e), what);
		each([&](int i, int j) { return A.at(i, j) - s; }); same("minus scalar", a - s, e, rel(e), what);
		each([&](int i, int j) { return A.at(i, j) * s; }); same("times scalar", a * s, e, rel(e), what);
		if (s == 0) s = 1;
		each([&](int i, int j) { return std::is_integral<X>::value ? (ld)((long)A.at(i, j) / (long)s) : A.at(i, j) / s; }); same("divided by scalar", a / s, e, rel(e), what);
		// product
		M p(r, k2), pt(r, k2); for (int i = 0; i < r; ++i) for (int j = 0; j < k2; ++j) for (int q = 0; q < k; ++q) { p.at(i, j) += A.at(i, q) * D.at(q, j); pt.at(i, j) += std::fabs(A.at(i, q) * D.at(q, j)) * Eps<X>::e * 4; }
		what = "a=" + show(A) + " b=" + show(D);
		same("product", a * d, p, pt, what); { matrix<X> q(a); q *= d; same("*=", q, p, pt, what); }
		std::vector<X> x(k); for (auto& y : x) y = num(); auto y = a * x; c.event("vector product");
		if ((int)y.size() != r) c.fail("vector product shape", "%zu", y.size()); else for (int i = 0; i < r; ++i) { ld v = 0, tl = 0; for (int j = 0; j < k; ++j) { v += A.at(i, j) * x[j]; tl += std::fabs(A.at(i, j) * x[j]); } if (!(std::fabs(v - (ld)y[i]) <= tl * Eps<X>::e * 4)) c.fail("vector product", "row %d %.9g instead of %.9Lg, a=%s", i, (double)y[i], v, show(A).c_str()); }
		M tr(k, r); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) tr.at(j, i) = A.at(i, j); same("transpose", a.transpose(), tr, rel(tr, 0), what); same("double transpose", a.transpose().transpose(), A, rel(A, 0), what);
		// predicates
		if (sizeof(X) == 8 && c.rng.chance(.1)) { // tiny is not zero
			matrix<X> w(r, k); int i = c.rng.below(r), j = c.rng.below(k); w(i, j) = (X)1e-60; c.event("tiny elements");
			if (w.is_row_null(i) || w.is_column_null(j) || w == matrix<X>(r, k) || (r > 1 && w.are_rows_equal(i, (i + 1) % r)) || (k > 1 && w.are_columns_equal(j, (j + 1) % k))) c.fail("tiny elements", "1e-60 at (%d,%d) of %dx%d is taken for zero", i, j, r, k);
		}
		for (int i = -1; i <= r; ++i) { bool z = i >= 0 && i < r; if (z) for (int j = 0; j < k; ++j) z = z && A.at(i, j) == 0; c.event("row predicates"); if (a.is_row_null(i) != z) c.fail("is_row_null", "%d of %s", i, what.c_str());
			for (int q = -1; q <= r; ++q) { bool w = i >= 0 && q >= 0 && i < r && q < r; if (w) for (int j = 0; j < k; ++j) w = w && A.at(i, j) == A.at(q, j); if (a.are_rows_equal(i, q) != w) c.fail("are_rows_equal", "%d %d of %s", i, q, what.c_str()); } }
		for (int j = -1; j <= k; ++j) { bool z = j >= 0 && j < k; if (z) for (int i = 0; i < r; ++i) z = z && A.at(i, j) == 0; if (a.is_column_null(j) != z) c.fail("is_column_null", "%d of %s", j, what.c_str());
			for (int q = -1; q <= k; ++q) { bool w = j >= 0 && q >= 0 && j < k && q < k; if (w) for (int i = 0; i < r; ++i) w = w && A.at(i, j) == A.at(i, q); if (a.are_columns_equal(j, q) != w) c.fail("are_columns_equal", "%d %d of %s", j, q, what.c_str()); } }
		// operands are untouched
		if (bits(a) != ba || bits(b) != bb || bits(d) != bd) c.fail("operand modified", "%s", what.c_str());
		// self operations
		{ matrix<X> q(a); q += q; each([&](int i, int j) { return 2 * A.at(i, j); }); same("+= itself", q, e, rel(e), what); q -= q; each([&](int, int) { return 0; }); same("-= itself", q, e, rel(e), what); }
		if (r == k) { matrix<X> q(a); q *= q; M z(r, r), zt(r, r); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) for (int w = 0; w < r; ++w) { z.at(i, j) += A.at(i, w) * A.at(w, j); zt.at(i, j) += std::fabs(A.at(i, w) * A.at(w, j)) * Eps<X>::e * 4; } same("*= itself", q, z, zt, what); }
		// shapes that do not fit
		int r2 = r + 1 + c.rng.below(2), kk = k + 1 + c.rng.below(2); matrix<X> o1(r2, k), o2(r, kk), o3(k + 1, 2);
		for (matrix<X>* o : { &o1, &o2 }) { rejects("sum of unequal shapes", a, [&] { auto z = a + *o; }); rejects("difference of unequal shapes", a, [&] { auto z = a - *o; }); rejects("+= of unequal shapes", a, [&] { a += *o; }); rejects("-= of unequal shapes", a, [&] { a -= *o; });
			rejects("sum of unequal shapes, larger left", *o, [&] { auto z = *o + a; }); rejects("+= of unequal shapes, larger left", *o, [&] { *o += a; }); rejects("-= of unequal shapes, larger left", *o, [&] { *o -= a; }); }
		rejects("product of unfitting shapes", a, [&] { auto z = a * o3; }); rejects("*= of unfitting shapes", a, [&] { a *= o3; });
		if (k > 1) { matrix<X> o4(k - 1, 2); rejects("product of unfitting shapes, smaller", a, [&] { auto z = a * o4; }); rejects("*= of unfitting shapes, smaller", a, [&] { a *= o4; }); }
		for (int sz : { k - 1, k + 1, 0 }) if (sz != k && sz >= 0) rejects("vector of wrong size", a, [&] { auto z = a * std::vector<X>(sz); });
		for (int q = 0; q < 3; ++q) { // any other shape
			int x1 = c.rng.chance(.4) ? 1 : c.rng.below(8), x2 = c.rng.chance(.4) ? 1 : c.rng.below(8); matrix<X> o = rand(x1, x2);
			if (x1 != r || x2 != k) { rejects("sum of another shape", a, [&] { auto z = a + o; }); rejects("difference of another shape", a, [&] { auto z = a - o; }); rejects("+= of another shape", a, [&] { a += o; }); rejects("-= of another shape", a, [&] { a -= o; }); }
			if (x1 != k) { rejects("product of another shape", a, [&] { auto z = a * o; }); rejects("*= of another shape", a, [&] { a *= o; }); }
			equal(a, o, what);
			{ std::vector<X> d; for (auto& l : a.values()) for (X e : l) d.push_back(e); int q1 = 0, q2 = 0; for (int t = 1 + c.rng.below(r * k + 1), z = 0; z < r * k; ++z, ++t) if (r * k % (1 + t % (r * k)) == 0) { q1 = 1 + t % (r * k); q2 = r * k / q1; break; } if (q1) equal(a, matrix<X>(q1, q2, d), what); } // the same elements in another arrangement
			{ matrix<X> w(a); w.resize(c.rng.below(r + 2), c.rng.below(k + 2), 0); equal(a, w, what); }
			matrix<X> u(rand(c.rng.below(8), c.rng.below(8))); u = o; if (bits(u) != bits(o) || !(u == o)) c.fail("assignment", "%s", show(model(o)).c_str()); // over any earlier value
		}
		const matrix<X>& ca = a;
		for (auto ij : { std::make_pair(-1, 0), std::make_pair(0, -1), std::make_pair(r, 0), std::make_pair(0, k), std::make_pair(INT32_MAX, 0), std::make_pair(0, INT32_MIN), std::make_pair(k, r) }) {
			if (ij.first >= 0 && ij.first < r && ij.second >= 0 && ij.second < k) continue;
			rejects("index outside", a, [&] { a(ij.first, ij.second) = 5; }); rejects("const index outside", a, [&] { volatile X z = ca(ij.first, ij.second); (void)z; });
		}
		c.cover("algebra " + tn, (uint64_t)r * 100 + k * 10 + k2); c.cover(std::hash<std::string>()(ba));
		c.sample("%s a=%s", tn.c_str(), show(A).c_str());
	}
	void square(int n) {
		matrix<X> a = rand(n, n); M A = model(a); std::string ba = bits(a), what = show(A);
		ld D = det(A), P = perm(A), tol = P * Eps<X>::e * n * 2 + (std::is_integral<X>::value ? 1e-6L * (1 + P * 1e-9L) : 0); ld got = a.determinante(); c.event("determinant");
		ld big = 0; for (auto x : A.v) big = std::max(big, std::fabs(x));
		if (!std::is_integral<X>::value && n > 1) for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) tol += std::fabs(det(minor_of(A, i, j))) * big * n * 2 * Eps<X>::e; // what elimination instead of expansion may lose
		if (!(std::fabs(got - D) <= tol)) c.fail("determinant", "%.9Lg instead of %.9Lg for %s", got, D, what.c_str());
		M adj(n, n), at(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { M q = minor_of(A, i, j); ld v = n == 1 ? 1 : det(q) * ((i + j) & 1 ? -1 : 1); adj.at(j, i) = v; at.at(j, i) = n == 1 ? 0 : perm(q) * Eps<X>::e * n * 2 + (std::is_integral<X>::value ? 1e-6L : 0); }
		same("adjoint", a.adjoint(), adj, at, what);
		if (!std::is_integral<X>::value && std::fabs(D) > 1e-3L * P) {
			M inv = adj, it = at; ld rt = 2 * Eps<X>::e;
			for (size_t q = 0; q < inv.v.size(); ++q) { inv.v[q] /= D; it.v[q] = it.v[q] / std::fabs(D) + std::fabs(inv.v[q]) * (tol / std::fabs(D) + rt); }
			ld ib = 0; for (auto x : inv.v) ib = std::max(ib, std::fabs(x));
			for (auto& x : it.v) x += 4 * n * n * Eps<X>::e * ib * big * ib;
			matrix<X> g = a.invert(); same("inverse", g, inv, it, what);
			matrix<X> one = a * g; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { ld s = 0; for (int q = 0; q < n; ++q) s += std::fabs(A.at(i, q)) * (it.at(q, j) + std::fabs(inv.at(q, j)) * 4 * Eps<X>::e); if (!(std::fabs((ld)one(i, j) - (i == j)) <= s + 1e-30L)) c.fail("matrix times inverse", "(%d,%d) %.9g of %s", i, j, (double)one(i, j), what.c_str()); }
			if (D != 0) c.event("inverse checked");
		}
		if (std::is_integral<X>::value && got == 0) { c.event("singular integer matrix"); Outcome o = attempt([&] { a.invert(); }); if (o.k == Outcome::FOREIGN) c.fail("inverse of a singular matrix", "%s: %s", what.c_str(), o.what.c_str()); }
		if (std::is_integral<X>::value && std::fabs(std::fabs(D) - 1) < 1e-6L) { c.event("integer inverse"); M inv = adj; for (auto& x : inv.v) x /= D; same("inverse", a.invert(), inv, at, what); }
		M id(n, n); for (int i = 0; i < n; ++i) id.at(i, i) = 1; { int n2 = 1 + c.rng.below(40); M big(n2, n2); for (int i = 0; i < n2; ++i) big.at(i, i) = 1; same("large identity", matrix<X>::create_idendity(n2), big, M(n2, n2), sfmt("%d", n2)); }
		matrix<X> I = matrix<X>::create_idendity(n); same("identity", I, id, M(n, n), "identity"); same("times identity", a * I, A, M(n, n), what); same("identity times", I * a, A, M(n, n), what);
		// determinant facts that do not need an oracle value
		matrix<X> t = a.transpose(); if (!(std::fabs((ld)t.determinante() - got) <= 2 * tol)) c.fail("determinant of transpose", "%s", what.c_str());
		if (bits(a) != ba) c.fail("operand modified", "%s", what.c_str());
		c.cover("square " + tn, n); c.cover(std::hash<std::string>()(ba));
	}
	void edits() { // history of edits against a model
		int r = 1 + c.rng.below(5), k = 1 + c.rng.below(5); matrix<X> m; M q; std::string hist;
		std::vector<X> data((size_t)r * k); for (auto& x : data) x = num();
		switch (c.rng.below(7)) {
		case 0: m = matrix<X>(r, k); q = M(r, k); hist = "(r,c)"; break;
		case 1: m = matrix<X>(r, k, data); q = M(r, k); for (size_t i = 0; i < data.size(); ++i) q.v[i] = data[i]; hist = "(r,c,data)"; break;
		case 2: { X x = num(); m = matrix<X>(r, k, x); q = M(r, k, x); hist = "(r,c,value)"; break; }
		case 3: m = matrix<X>(r); q = M(r, r); hist = "(n)"; break;
		case 4: { std::vector<X> d2((size_t)r * r); for (auto& x : d2) x = num(); m = matrix<X>(r, d2); q = M(r, r); for (size_t i = 0; i < d2.size(); ++i) q.v[i] = d2[i]; hist = "(n,data)"; break; }
		case 5: hist = "()"; break;
		default: { matrix<X> o(r, k, data); matrix<X> cp(o); o.fill(9); m = cp; q = M(r, k); for (size_t i = 0; i < data.size(); ++i) q.v[i] = data[i]; hist = "copy"; }
		}
		same("construct " + hist, m, q, M(q.r, q.c), hist);
		for (int step = 0; step < 8; ++step) {
			switch (c.rng.below(7)) {
			case 0: { X x = num(); m.fill(x); for (auto& y : q.v) y = x; hist += " fill"; break; }
			case 1: { std::vector<X> d(q.v.size()); for (auto& x : d) x = num(); auto keep = d; m.insert(d); for (size_t i = 0; i < d.size(); ++i) q.v[i] = d[i]; if (d != keep) c.fail("insert changes its argument", "%s", hist.c_str()); hist += " insert"; break; }
			case 2: { // data of another size does not fit: refused or ignored, never partly applied
				std::vector<X> d(q.v.size() + (c.rng.chance(.5) || q.v.empty() ? 1 + c.rng.below(4) : -1)); for (auto& x : d) x = num(); attempt([&] { m.insert(d); }); hist += " insert(wrong size)"; break; }
			case 3: case 4: { int big = c.rng.chance(.05) ? 40 : 7, r2 = c.rng.below(big), k2 = c.rng.below(big); X x = num(); bool def = c.rng.chance(.3); if (def) m.resize(r2, k2); else m.resize(r2, k2, x); M z(r2, k2, def ? 0 : x); for (int i = 0; i < std::min(r2, q.r); ++i) for (int j = 0; j < std::min(k2, q.c); ++j) z.at(i, j) = q.at(i, j); q = z; hist += sfmt(" resize(%d,%d)", r2, k2); break; }
			case 5: { if (!q.v.empty()) { int i = c.rng.below(q.r), j = c.rng.below(q.c); X x = num(); m(i, j) = x; q.at(i, j) = x; hist += " set"; } break; }
			default: { matrix<X> o(m); const matrix<X>& co = o; const matrix<X>& cm = m; if (!(o == m) || !(co == cm)) c.fail("equality of copies", "%s", hist.c_str());
				if (!q.v.empty()) { int i = c.rng.below(q.r), j = c.rng.below(q.c); o(i, j) = o(i, j) + 1; if (o == m || co == cm) c.fail("equality of different matrices", "%s", hist.c_str()); matrix<X> w(m); w.resize(q.r + 1, q.c); if (w == m) c.fail("equality of different shapes", "%s", hist.c_str()); }
				matrix<X> u(2, 2); u = m; m = m; m = u; hist += " copy"; }
			}
			c.event("edit step"); ++c.evals;
			if (c.rng.chance(.2)) { int a = c.rng.chance(.5) ? -1 : -1000; rejects("negative size", m, [&] { if (c.rng.chance(.5)) m.resize(a, 2); else m.resize(2, a); }); }
			same("after edits", m, q, M(q.r, q.c), hist);
			c.cover("edits", std::hash<std::string>()(hist));
		}
		if (c.rng.chance(.05)) rejects("negative construction", m, [&] { matrix<X> z(-1 - c.rng.below(5), 2); });
	}
};
}
template <class X> static void matrices(Ctx& c, const char* name, int rounds) {
	Mon<X> m{ c, name };
	uint64_t id = 0;
	// every shape up to 5x5x5 once, then random ones
	for (int r = 1; r <= 5; ++r) for (int k = 1; k <= 5; ++k) for (int q = 1; q <= 5; ++q) if (c.mine(id++)) { c.tick("matrix algebra"); guarded(c, "algebra", [&] { return sfmt("%s %dx%dx%d", name, r, k, q); }, [&] { m.algebra(r, k, q); }); }
	for (int i = 0; i < rounds; ++i) {
		int big = c.rng.chance(.04) ? 40 : 7, r = 1 + c.rng.below(big), k = 1 + c.rng.below(big), q = 1 + c.rng.below(big), n = c.rng.chance(.003) ? 7 + c.rng.below(2) : 1 + c.rng.below(c.rng.chance(.2) ? 6 : 4);
		c.tick("matrix algebra"); guarded(c, "algebra", [&] { return sfmt("%s %dx%dx%d", name, r, k, q); }, [&] { m.algebra(r, k, q); });
		c.tick("matrix square"); guarded(c, "square", [&] { return sfmt("%s %d", name, n); }, [&] { m.square(n); }); guarded(c, "square", [&] { return sfmt("%s 3", name); }, [&] { m.square(3); });
		c.tick("matrix edits"); guarded(c, "edits", [&] { return std::string(name); }, [&] { m.edits(); });
		if (i % 4 == 0) { c.tick("matrix without elements"); guarded(c, "empty", [&] { return std::string(name); }, [&] { m.empties(); }); }
	}
}
PROPERTY(C12) {
	c.rule = "a case is one set of matrix operations on random float, double or int matrices of one shape (all shapes up to 5x5x5 enumerated) compared with long double linear algebra by other algorithms, or one step of a random edit history against a model; distinct = shapes, matrices and edit histories";
	matrices<float>(c, "float", c.scale(2400, 120000));
	matrices<double>(c, "double", c.scale(1200, 60000));
	matrices<int>(c, "int", c.scale(1200, 60000));
}
