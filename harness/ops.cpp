#include "ops.h"
#include <limits>

std::string range_error(color_base* c) {
	T t = type_of(c);
	if (t == NT) return "";
	auto& r = comps_of(t); V v = comps(c);
	if (v.size() != r.size()) return sfmt("%zu components", v.size());
	for (size_t i = 0; i < v.size(); ++i) if (!(v[i] >= r[i].lo && v[i] <= r[i].hi)) return sfmt("component %zu is %.9g", i, v[i]);
	double a = c->alpha();
	if (!(a >= 0 && a <= alpha_max(t))) return sfmt("alpha is %.9g", a);
	return "";
}
static void put(std::string& s, float f) { if (f != f) f = std::numeric_limits<float>::quiet_NaN(); s.append((const char*)&f, 4); }
static std::string color_bits(color_base* c, bool deep) {
	std::string s; T t = type_of(c); s += (char)t;
	for (double v : comps(c)) put(s, (float)v);
	put(s, c->alpha());
	auto d = c->get_rgb_color_space();
	if (deep && d) { // without addresses: an adaptation creates a new space each time
		for (float f : d->get_red_chromaticity_coordinate()) put(s, f);
		for (float f : d->get_white_point()->get_tristimulus()) put(s, f);
		for (int k = 0; k < 2; ++k) { auto m = k ? d->get_inverse_transform_matrix() : d->get_transform_matrix(); for (auto& r : m.values()) for (float f : r) put(s, f); }
	}
	return s;
}
std::string OpOut::bits() const {
	std::string s; s += (char)oc.k;
	for (auto c : cols) s += c ? color_bits(c, true) : std::string("null");
	for (double v : vals) { if (v != v) v = std::numeric_limits<double>::quiet_NaN(); s.append((const char*)&v, 8); }
	return s;
}
std::string OpOut::show() const {
	std::string s = oc.threw() ? "exception " + oc.what : "";
	for (size_t i = 0; i < cols.size() && i < 6; ++i) s += " " + ::show(cols[i]);
	for (size_t i = 0; i < vals.size() && i < 9; ++i) s += sfmt(" %.9g", vals[i]);
	return s;
}
std::string OpIn::snapshot() const {
	std::string s;
	for (auto c : owned) s += ::snapshot(c);
	for (auto c : owned) if (c->get_rgb_color_space() != def && c->get_rgb_color_space()) s += ::snapshot(c->get_rgb_color_space());
	s += ::snapshot(def) + ::snapshot(w) + ::snapshot(g);
	for (auto m : { m1, m2, sq }) { s += sfmt("%d %d ", m->rows(), m->columns()); for (auto& r : m->values()) for (float f : r) s.append((const char*)&f, 4); }
	return s;
}
std::string OpIn::describe() const {
	auto tri = w->get_tristimulus();
	return "a=" + show(a) + " b=" + show(b) + " a2=" + show(a2) + sfmt(" list=%zu t=%s x=%.9g,%.9g,%.9g,%.9g w=%.9g,%.9g n=%d,%d flags=%d%d white=%.9g,%.9g,%.9g matrices %dx%d %dx%d", list.size(), TNAME[t],
		x[0], x[1], x[2], x[3], w1, w2, n[0], n[1], p[0], p[1], tri[0], tri[1], tri[2], m1->rows(), m1->columns(), m2->rows(), m2->columns());
}
thread_local std::function<void()>* in_callback = nullptr;
void run_op(const Op& op, OpIn& in, OpOut& out) { out.oc = attempt([&] { op.run(in, out); }); }
void free_out(const OpIn& in, OpOut& out) {
	std::set<color_base*> s(out.cols.begin(), out.cols.end());
	for (auto c : in.owned) s.erase(c);
	s.erase(nullptr);
	for (auto c : s) delete c;
	out.cols.clear();
}
void free_in(OpIn& in) { for (auto c : in.owned) delete c; in.owned.clear(); delete in.m1; delete in.m2; delete in.sq; }

static matrix<float>* gen_matrix(Ctx& c, Wild w, int r, int k) {
	auto m = new matrix<float>(r, k);
	for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) (*m)(i, j) = w == WILD && c.rng.chance(.5) ? hostile(c.rng) : (float)(c.rng.chance(.3) ? c.rng.below(5) - 2 : c.rng.range(-3, 3));
	if (r > 1 && c.rng.chance(.15)) for (int j = 0; j < k; ++j) (*m)(0, j) = c.rng.chance(.5) ? 0 : (*m)(r - 1, j);
	return m;
}
static white_point* gen_white(Ctx& c, Wild w) {
	if (w == WILD && c.rng.chance(.5)) {
		if (c.rng.chance(.3)) return new white_point(hostile(c.rng), hostile(c.rng));
		if (c.rng.chance(.3)) return new white_point();
		return new white_point(hostile(c.rng), hostile(c.rng), hostile(c.rng));
	}
	if (c.rng.chance(.6)) { auto& p = c.rng.pick(wps()); white_point_presets wp; return (wp.*p.fn)(); }
	return new white_point((float)c.rng.range(.25, .46), (float)c.rng.range(.28, .42));
}
static gamma* gen_gamma(Ctx& c) {
	std::vector<gamma_part*> v[2];
	for (auto& q : v) {
		int n = c.rng.chance(.15) ? 16 << c.rng.below(4) : c.rng.below(4), dup = n > 4 ? c.rng.below(3) : 0; // long lists with few distinct borders reach the sort algorithm's corners
		for (int k = n; k > 0; --k) {
		float e = (float)c.rng.range(.3, 3), b = dup == 1 ? .5f : dup == 2 ? c.rng.below(3) * .5f : (float)c.rng.u();
		q.push_back(dup == 1 && c.rng.chance(.5) ? nullptr : c.rng.chance(.1) ? nullptr : c.rng.chance(.1) ? new gamma_part() : new gamma_part([e](float x) { return std::pow(x, e); }, b));
	} }
	return new gamma(v[0], v[1]);
}
OpIn gen_in(Ctx& c, const Space& sp, Wild wild) {
	OpIn in; Rng& r = c.rng;
	auto col = [&](T t) { color_base* p = wild == WILD && r.chance(.7) ? gen_hostile(c, t, sp.def) : gen_color(c, t, sp); in.owned.push_back(p); return p; };
	in.def = sp.def;
	T ta = (T)r.below(NT), tb = r.chance(.4) ? ta : (T)r.below(NT);
	in.a = col(ta); in.b = r.chance(.06) ? in.a : col(tb);
	in.a2 = r.chance(.06) ? in.a : col(ta);
	for (int k = r.chance(.06) ? 1 + r.below(90) : 1 + r.below(5); k > 0; --k) in.list.push_back(r.chance(.2) ? in.a : col(ta));
	if (wild == WILD && r.chance(.05)) in.list.clear();
	in.t = (T)r.below(NT);
	auto num = [&](double lo, double hi) { return wild == WILD && r.chance(.5) ? hostile(r) : (float)r.range(lo, hi); };
	for (int i = 0; i < 4; ++i) in.x[i] = num(-.9, .9);
	in.x[4] = num(1, 119); in.x[5] = num(.5, 1); in.x[6] = num(1, 400); in.x[7] = num(1, 400);
	in.w1 = r.chance(.1) ? 0.f : r.chance(.1) ? 1.f : num(0, 1); in.w2 = r.chance(.1) ? 0.f : r.chance(.1) ? 1.f : num(0, 1);
	static const int wn[] = { -1, 0, 1, 2, 3, 5, 7, 360, 361, 1000, INT32_MAX, INT32_MIN, -360 };
	in.n[0] = wild == WILD && r.chance(.4) ? r.pick(std::vector<int>(wn, wn + 13)) : r.chance(.12) ? 1 + r.below(400) : 2 + r.below(9);
	in.n[1] = wild == WILD && r.chance(.3) ? r.pick(std::vector<int>(wn, wn + 10)) : r.chance(.12) ? 1 + r.below(130) : 1 + r.below(6);
	in.n[2] = wild == WILD && r.chance(.4) ? r.pick(std::vector<int>(wn, wn + 13)) : r.below(3);
	in.n[3] = wild == WILD ? (int)r.next() : r.below(4);
	for (auto& b : in.p) b = r.chance(.5);
	int len = wild == WILD && r.chance(.4) ? r.below(r.chance(.05) ? r.chance(.1) ? 300000 : 4000 : 14) : r.chance(.5) ? 6 : 8;
	if (r.chance(.4)) in.text = "#";
	for (int k = 0; k < len; ++k) in.text += wild == WILD && r.chance(.1) ? (char)r.below(256) : "0123456789abcdefABCDEF"[r.below(22)];
	static const std::vector<gamma*>* gs = nullptr; static const std::vector<white_point*>* ws = nullptr;
	if (!gs) { // pools: the library never frees these
		auto g = new std::vector<gamma*>; auto w = new std::vector<white_point*>;
		for (int k = 0; k < 60; ++k) g->push_back(gen_gamma(c));
		for (int k = 0; k < 120; ++k) w->push_back(gen_white(c, k < 60 ? TAME : WILD));
		gs = g; ws = w;
	}
	in.g = r.chance(.5) ? sp.def->get_gamma_curve() : r.pick(*gs);
	in.w = r.chance(.05) ? sp.def->get_white_point() : (*ws)[r.below(wild == WILD ? 120 : 60)];
	int a = 1 + r.below(5), b = r.chance(.4) ? a : 1 + r.below(5), k = r.chance(.3) ? a : 1 + r.below(5);
	if (wild == WILD && r.chance(.05)) a = 0;
	in.m1 = gen_matrix(c, wild, a, b);
	in.m2 = r.chance(.4) ? gen_matrix(c, wild, a, b) : gen_matrix(c, wild, r.chance(.7) ? b : k, k);
	in.sq = gen_matrix(c, wild, k, k);
	return in;
}

template <class F> static void each(OpOut& o, const F& m) { o.vals.push_back(m.rows()); o.vals.push_back(m.columns()); for (auto& r : m.values()) for (float f : r) o.vals.push_back(f); }
template <class A> static void arr(OpOut& o, const A& a) { for (float f : a) o.vals.push_back(f); }

static std::vector<Op> build() {
	std::vector<Op> v;
	auto add = [&](const std::string& n, std::function<void(OpIn&, OpOut&)> f, bool det = true, bool ranged = true) { v.push_back(Op{ n, f, det, ranged }); };
	add("convertTo undefined", [](OpIn& i, OpOut& o) { color_base* q = color_converter::convertTo(i.a, color_type::UNDEFINED); o.vals.push_back(q != nullptr); if (q) o.cols.push_back(q); });
	// several results of one call: keep what was produced when the next call throws
	for (int t = 0; t < NT; ++t) {
		T tt = (T)t; std::string n = TNAME[t];
		add("convertTo " + n, [tt](OpIn& i, OpOut& o) { o.cols.push_back(generic_convert(i.a, tt)); });
		add("to_" + n, [tt](OpIn& i, OpOut& o) { o.cols.push_back(to_x(i.a, tt)); });
		add("x_to_" + n, [tt](OpIn& i, OpOut& o) { if (typed_available && type_of(i.a) != tt) o.cols.push_back(typed_convert(i.a, tt)); });
		add("construct " + n, [tt](OpIn& i, OpOut& o) { o.cols.push_back(make(tt, V{ i.x[0], i.x[1], i.x[2], i.x[3] }, i.x[5], i.def)); });
		add("construct wide " + n, [tt](OpIn& i, OpOut& o) { o.cols.push_back(make(tt, V{ i.x[6] - 200, i.x[7] - 200, i.x[4] * 3, i.x[0] * 400 }, i.x[6], i.def)); });
		add("from base " + n, [tt](OpIn& i, OpOut& o) { o.cols.push_back(from_base(tt, *i.a)); });
	}
	add("copy", [](OpIn& i, OpOut& o) { o.cols.push_back(clone(i.a)); });
	add("grey of rgb", [](OpIn& i, OpOut& o) { o.cols.push_back(new rgb_truecolor(i.x[6], i.x[7], i.def)); o.cols.push_back(new rgb_deepcolor(i.x[0], i.x[1], i.def)); });
	add("hex", [](OpIn& i, OpOut& o) { o.cols.push_back(new rgb_truecolor(i.text, i.def)); });
	add("packed", [](OpIn& i, OpOut& o) { o.cols.push_back(new rgb_truecolor(i.n[3], i.def)); });
	add("predefined", [](OpIn& i, OpOut& o) {
		predefined_color p((HexcodeColors)i.n[3], i.def);
		o.cols = { p.get_rgb_deep(), p.get_grey_true(), p.get_grey_deep(), p.get_cmyk(), p.get_hsv(), p.get_hsl(), p.get_xyz(), p.get_xyy(), p.get_lab(), p.get_rgb_true() };
	});
	add("setters", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); int k = (int)comps_of(type_of(c)).size(); for (int j = 0; j < k; ++j) { set_named(c, j, j & 1 ? i.x[j] : i.x[6] * (j ? 1 : -3)); o.vals.push_back(get_named(c, j)); } });
	add("alpha setter", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); c->alpha(i.x[6]); o.vals.push_back(c->alpha()); });
	add("set_component", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); c->set_component(i.x[4], i.n[2]); c->set_component(i.x[0], i.n[2], i.x[5], -i.x[5]); o.vals.push_back(c->get_component(i.n[2])); }, true, false);
	add("get_component", [](OpIn& i, OpOut& o) { o.vals.push_back(i.a->get_component(i.n[2])); });
	add("assign", [](OpIn& i, OpOut& o) { auto c = clone(i.a2); o.cols.push_back(c); assign_typed(c, i.a); assign_typed(c, c); });
	add("assign base", [](OpIn& i, OpOut& o) { auto c = clone(i.a2); o.cols.push_back(c); static_cast<color_base&>(*c) = *i.a; static_cast<color_base&>(*c) = *c; });
	add("compare", [](OpIn& i, OpOut& o) { o.vals = { (double)(*i.a == *i.b), (double)(*i.a != *i.b), (double)(*i.a == *i.a2), (double)(*i.a == *i.a) }; });
	add("operator+", [](OpIn& i, OpOut& o) { color_base r = *i.a + *i.a2; for (double x : comps(&r)) o.vals.push_back(x); color_base q = *i.a + *i.b; for (double x : comps(&q)) o.vals.push_back(x); });
	add("set space", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); c->set_rgb_color_space(presets()[i.n[3] & 15].def); });
	add("premultiply", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); c->alpha_multiply(); c->alpha_divide(); }, true, false);
	add("gamma correct", [](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); c->do_gamma_correction(); c->do_inverse_gamma_correction(); }, true, false);
	// gamma, white, space
	add("gamma evaluate", [](OpIn& i, OpOut& o) { for (float x : i.x) { o.vals.push_back(i.g->gamma_correction(x)); o.vals.push_back(i.g->inverse_gamma_correction(x)); } });
	add("gamma edit copy", [](OpIn& i, OpOut& o) {
		gamma k(*i.g); gamma_part q([](float x) { return x * 2; }, i.x[0]), n2(q); n2 = q;
		k.add_gamma_curve_part(&q); k.add_inverse_gamma_curve_part(&q); o.vals.push_back(k.gamma_correction(i.x[0])); o.vals.push_back(k == *i.g); o.vals.push_back(k != *i.g);
		auto ps = k.get_gamma_curve_parts(); o.vals.push_back(k.remove_gamma_curve_part(ps.begin() + (i.n[3] & 0xffff) % ps.size())); auto is = k.get_inverse_gamma_curve_parts(); o.vals.push_back(k.remove_inverse_gamma_curve_part(is.begin() + (i.n[3] & 0xffff) % is.size()));
		o.vals.push_back(k.gamma_correction(i.x[1])); k.set_gamma_curve_parts(is); k.set_inverse_gamma_curve_parts(ps); o.vals.push_back(k.inverse_gamma_correction(i.x[2]));
		o.vals.push_back(k.remove_gamma_curve_part(ps.begin())); o.vals.push_back(k.remove_inverse_gamma_curve_part(is.begin())); o.vals.push_back(k.gamma_correction(i.x[1])); o.vals.push_back(k.inverse_gamma_correction(i.x[2]));
		o.vals.push_back(q == n2); o.vals.push_back(q != n2); o.vals.push_back(q < n2); o.vals.push_back(q >= n2);
		gamma z; z = *i.g; o.vals.push_back(z == *i.g); o.vals.push_back(z.gamma_correction(i.x[3]));
	});
	add("white point", [](OpIn& i, OpOut& o) {
		white_point a(i.x[0], i.x[1]), b(i.x[0], i.x[1], i.x[2]), d(i.x[0], i.x[1], i.x[2], i.x[3], i.x[5]), e(*i.w), f(std::array<float, 3>{ { i.x[0], i.x[1], i.x[2] } }, std::array<float, 2>{ { i.x[3], i.x[5] } });
		for (auto w : { &a, &b, &d, &e, &f }) { arr(o, w->get_tristimulus()); arr(o, w->get_chromaticity_coordinate()); o.vals.push_back(w->get_tristimulus_x() + w->get_chromaticity_z()); o.vals.push_back(*w == *i.w); o.vals.push_back(*w != *i.w); }
		arr(o, white_point::tristimulus_to_chromaticity_coordinate(i.w->get_tristimulus())); arr(o, white_point::chromaticity_coordinate_to_tristimulus(i.w->get_chromaticity_coordinate(), i.x[0]));
	});
	add("space copy", [](OpIn& i, OpOut& o) {
		rgb_color_space_definition d(*i.def); each(o, d.get_transform_matrix()); each(o, d.get_inverse_transform_matrix());
		d.set_white_point(i.w); each(o, d.get_transform_matrix()); each(o, d.get_inverse_transform_matrix()); d.set_gamma_curve(i.g); o.vals.push_back(d.get_gamma_curve() == i.g);
		arr(o, d.get_red_chromaticity_coordinate()); o.vals.push_back(d.get_red_x() + d.get_green_y() + d.get_blue_z());
	});
	add("space build", [](OpIn& i, OpOut& o) { rgb_color_space_definition d(i.x[0], i.x[1], i.x[2], i.x[3], i.x[5], i.w1, i.w, i.g); each(o, d.get_transform_matrix()); each(o, d.get_inverse_transform_matrix()); });
	// matrices
	add("matrix sum", [](OpIn& i, OpOut& o) { each(o, *i.m1 + *i.m2); matrix<float> c(*i.m1); c += *i.m2; c -= *i.m2; each(o, c); });
	add("matrix difference", [](OpIn& i, OpOut& o) { each(o, *i.m1 - *i.m2); });
	add("matrix product", [](OpIn& i, OpOut& o) { each(o, *i.m1 * *i.m2); matrix<float> c(*i.m1); c *= *i.m2; each(o, c); });
	add("matrix scalar", [](OpIn& i, OpOut& o) { each(o, *i.m1 + i.x[0]); each(o, *i.m1 - i.x[0]); each(o, *i.m1 * i.x[0]); each(o, *i.m1 / i.x[0]); });
	add("matrix vector", [](OpIn& i, OpOut& o) { arr(o, *i.m1 * std::vector<float>(i.x, i.x + i.m1->columns())); arr(o, *i.m1 * std::vector<float>(i.x, i.x + 3)); });
	add("matrix transpose", [](OpIn& i, OpOut& o) { each(o, i.m1->transpose()); });
	add("matrix determinant", [](OpIn& i, OpOut& o) { o.vals.push_back(i.sq->determinante()); });
	add("matrix adjoint", [](OpIn& i, OpOut& o) { each(o, i.sq->adjoint()); });
	add("matrix invert", [](OpIn& i, OpOut& o) { each(o, i.sq->invert()); });
	add("matrix not square", [](OpIn& i, OpOut& o) { o.vals.push_back(i.m1->determinante()); each(o, i.m1->adjoint()); each(o, i.m1->invert()); });
	add("matrix edit copy", [](OpIn& i, OpOut& o) {
		matrix<float> c(*i.m1); c.fill(i.x[0]); each(o, c); std::vector<float> q(i.x, i.x + (i.p[0] ? 4 : 6)); c.insert(q); each(o, c); c.resize(i.n[0] % 40, i.n[1] % 40, i.x[1]); each(o, c); c = *i.m2; c = c; each(o, c); o.vals.push_back(c == *i.m2);
		matrix<float> e(3), f(2, q), g2(2, 3, q), h(2, 3, i.x[0]), z; each(o, e); each(o, f); each(o, g2); each(o, h); each(o, z); each(o, matrix<float>::create_idendity(1 + i.sq->rows()));
		o.vals.push_back(z.determinante()); each(o, z.transpose()); each(o, z.adjoint()); each(o, z.invert()); each(o, z * z);
	});
	add("matrix index", [](OpIn& i, OpOut& o) { for (int k = -2; k < 7; ++k) { o.vals.push_back(i.m1->is_row_null(k)); o.vals.push_back(i.m1->is_column_null(k)); o.vals.push_back(i.m1->are_rows_equal(k, i.n[2])); o.vals.push_back(i.m1->are_columns_equal(i.n[2], k)); } o.vals.push_back((*i.m1)(i.n[2], i.n[1])); });
	// distances
	for (int t = 0; t < NT; ++t) add(std::string("euclidean in ") + TNAME[t], [t](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::euclidean_distance_squared(i.a, i.b, TENUM[t])); o.vals.push_back(color_distance::euclidean_distance(i.a, i.b, TENUM[t])); });
	add("euclidean", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::euclidean_distance_squared(i.a, i.b)); o.vals.push_back(color_distance::euclidean_distance(i.a, i.b)); o.vals.push_back(color_distance::euclidean_distance(i.a, i.a2)); });
	add("euclidean weighted", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::euclidean_distance_weighted(i.a, i.b)); });
	add("cie76", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cielab_delta_e_cie76(i.a, i.b)); });
	add("cie94", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cielab_delta_e_cie94(i.a, i.b)); });
	add("cie94 parameters", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cielab_delta_e_cie94(i.a, i.b, i.x[5], i.w1, i.w2, i.x[0], i.x[1])); });
	add("cie00", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cielab_delta_e_cie00(i.a, i.b)); });
	add("cie00 parameters", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cielab_delta_e_cie00(i.a, i.b, i.x[5], i.w1, i.w2, i.x[0], i.x[1])); });
	add("cmc", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cmc_delta_e_lc84(i.a, i.b)); });
	add("cmc parameters", [](OpIn& i, OpOut& o) { o.vals.push_back(color_distance::cmc_delta_e_lc84(i.a, i.b, i.x[5], i.x[0])); });
	// calculations
	add("add", [](OpIn& i, OpOut& o) { o.cols.push_back(color_calculation::add(i.a, i.b, i.w1, i.w2, i.p[0])); });
	add("mix", [](OpIn& i, OpOut& o) { o.cols.push_back(color_calculation::mix(i.a, i.b, i.w1, i.p[0])); });
	add("subtract", [](OpIn& i, OpOut& o) { o.cols.push_back(color_calculation::subtract(i.a, i.b, i.w1, i.p[0])); });
	add("typed add", [](OpIn& i, OpOut& o) { o.cols.push_back(typed_add(i.a, i.a2, i.w1, i.w2, i.p[0])); });
	add("typed mix", [](OpIn& i, OpOut& o) { o.cols.push_back(typed_mix(i.a, i.a2, i.w1, i.p[0])); });
	add("typed subtract", [](OpIn& i, OpOut& o) { o.cols.push_back(typed_subtract(i.a, i.a2, i.w1, i.p[0])); });
	add("average", [](OpIn& i, OpOut& o) { o.cols.push_back(average(type_of(i.a), i.list, i.p[0])); });
	// compositing
	for (auto& b : pd_ops()) add(std::string("porter duff ") + b.name, [b](OpIn& i, OpOut& o) { o.cols.push_back(b.fn(i.a, i.b, true, true)); });
	for (auto& b : blend_ops()) add(std::string("blend ") + b.name, [b](OpIn& i, OpOut& o) { o.cols.push_back(b.fn(i.a, i.b, i.p[0], i.p[1])); }, std::string(b.name) != "dissolve");
	for (auto& b : hcy_blend_ops()) add(std::string("blend ") + b.name, [b](OpIn& i, OpOut& o) { o.cols.push_back(b.fn(i.a, i.b, i.p[0], i.p[1])); });
	add("blend custom", [](OpIn& i, OpOut& o) { float k = i.x[0]; o.cols.push_back(color_blend::custom_componentwise_blend(i.a, i.b, i.p[0], i.p[1], [k](float s, float d) { called_back(); return k * s - d / k; })); });
	// combinations
	add("complementary", [](OpIn& i, OpOut& o) { o.cols.push_back(color_combinations::create_complimentary(i.a)); });
	add("triplet", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_triplet(i.a); });
	add("quartet", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_quartet(i.a); });
	add("quintet", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_quintet(i.a); });
	add("combination", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_combination(i.a, i.n[0]); });
	add("analogous", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_analogous(i.a, i.x[4]); });
	add("split", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_complimentary_split(i.a, i.x[4]); });
	add("monochromatic", [](OpIn& i, OpOut& o) { o.cols = color_combinations::create_monochromatic(i.a, i.n[2], i.w1, i.n[1]); });
	// adjustments
	typedef color_adjustments J;
	struct { const char* n; color_base* (*f)(color_base*, float); void (*g)(color_base&, float); } adj[] = {
		{ "saturate rgb", [](color_base* a, float p) -> color_base* { return J::saturate_in_rgb_space(a, p); }, [](color_base& a, float p) { J::saturate_in_rgb_space(a, p); } }, { "saturate hsl", [](color_base* a, float p) -> color_base* { return J::saturate_in_hsl_space(a, p); }, [](color_base& a, float p) { J::saturate_in_hsl_space(a, p); } },
		{ "luminate rgb", [](color_base* a, float p) -> color_base* { return J::luminate_in_rgb_space(a, p); }, [](color_base& a, float p) { J::luminate_in_rgb_space(a, p); } }, { "luminate hsl", [](color_base* a, float p) -> color_base* { return J::luminate_in_hsl_space(a, p); }, [](color_base& a, float p) { J::luminate_in_hsl_space(a, p); } } };
	for (auto& a : adj) {
		auto f = a.f; auto g = a.g;
		add(a.n, [f](OpIn& i, OpOut& o) { o.cols.push_back(f(i.a, i.x[0])); });
		add(std::string(a.n) + " in place", [g](OpIn& i, OpOut& o) { auto c = clone(i.a); o.cols.push_back(c); g(*c, i.x[0]); });
	}
	for (auto& a : adapt_ops()) add(std::string("adapt ") + a.name, [a](OpIn& i, OpOut& o) { o.cols.push_back(a.fn(i.a, i.w, i.x[5], i.x[6], i.x[7])); });
	add("adapting luminance", [](OpIn& i, OpOut& o) { o.vals.push_back(chromatic_adaptation::calculate_adapting_luminance(i.x[6], i.x[7])); });
	return v;
}
const std::vector<Op>& all_ops() { static const std::vector<Op> v = build(); return v; }
