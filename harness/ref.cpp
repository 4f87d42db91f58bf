#include "ref.h"
thread_local double g_round_bias = 0;
thread_local uint64_t g_noise = 0;
// In some looks, instead: rounding to the spacing that single precision numbers have at unit, which makes close values
// equal and keeps equal values equal.
static bool grid() { return g_noise >> 40 & 1; }
static double to_grid(double x, double unit) { double q = unit * 5.9604645e-8 * (1 + g_noise % 4), u = (Rng::mix(g_noise) >> 11) / 9007199254740992.0; return std::floor(x / q + u) * q; }
// While g_noise is set, intermediate results get an error of the size that single precision arithmetic makes. It is a
// function of the value, so that equal values stay equal.
double nz(double x, double unit) {
	if (!g_noise) return x;
	uint64_t b; memcpy(&b, &x, 8); if (x == 0) b = 0;
	if (g_noise >> 41 & 1) { static thread_local uint64_t salt = 0; b ^= Rng::mix(++salt); } // in some looks, every evaluation has its own error
	double u = (Rng::mix(b ^ Rng::mix(g_noise)) >> 11) * (2.0 / 9007199254740992.0) - 1;
	if (grid() && unit > 0 && std::fabs(x) < 6e-7 * unit) return to_grid(x, unit); // may cancel completely
	return x + u * 3e-7 * unit;
}
static V nz(V v, double unit) { if (g_noise) for (auto& x : v) if (grid() && unit > 0) x = to_grid(x, unit); else x = nz(x, std::max(unit, std::fabs(x))); return v; }
static V mulnz(const double* m, const V& v) {
	V r = mulv(m, v);
	if (g_noise) { double mm = 0; for (int i = 0; i < 9; ++i) mm = std::max(mm, std::fabs(m[i])); for (auto& x : r) x = nz(x, mm * (std::fabs(v[0]) + std::fabs(v[1]) + std::fabs(v[2]))); }
	return r;
}

bool inv3(const double* a, double* o) {
	double d = a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
	if (d == 0) return false;
	o[0] = (a[4] * a[8] - a[5] * a[7]) / d; o[1] = (a[2] * a[7] - a[1] * a[8]) / d; o[2] = (a[1] * a[5] - a[2] * a[4]) / d;
	o[3] = (a[5] * a[6] - a[3] * a[8]) / d; o[4] = (a[0] * a[8] - a[2] * a[6]) / d; o[5] = (a[2] * a[3] - a[0] * a[5]) / d;
	o[6] = (a[3] * a[7] - a[4] * a[6]) / d; o[7] = (a[1] * a[6] - a[0] * a[7]) / d; o[8] = (a[0] * a[4] - a[1] * a[3]) / d;
	return true;
}
void mul3(const double* a, const double* b, double* o) {
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { double s = 0; for (int k = 0; k < 3; ++k) s += a[i * 3 + k] * b[k * 3 + j]; o[i * 3 + j] = s; }
}
V mulv(const double* a, const V& v) { V r(3); for (int i = 0; i < 3; ++i) r[i] = a[i * 3] * v[0] + a[i * 3 + 1] * v[1] + a[i * 3 + 2] * v[2]; return r; }

void RS::derive() {
	// columns: chromaticities of the primaries, scaled so that (1,1,1) gives the white
	double P[9] = { rx, gx, bx, ry, gy, by, 1 - rx - ry, 1 - gx - gy, 1 - bx - by }, Pi[9];
	inv3(P, Pi);
	V s = mulv(Pi, V{ W[0], W[1], W[2] });
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) M[i * 3 + j] = P[i * 3 + j] * s[j];
	inv3(M, Mi);
}
static double power_of(Gam g, double e) {
	switch (g) { case GA18: return 1.8; case GA22: return 2.2; case GA26: return 2.6; case GA28: return 2.8; case GAADOBE: return 2.19921875; default: return e; }
}
double RS::enc(double v) const {
	switch (g) {
	case GASRGB: return v <= 0.0031308 ? 12.92 * v : 1.055 * std::pow(v, 1 / 2.4) - 0.055;
	case GAROMM: return v <= 0.001953 ? 16 * v : std::pow(v, 1 / 1.8);
	case GAUHDTV: return v <= 0.018053968510807 ? 4.5 * v : 1.099 * std::pow(v, 0.45) - 0.099;
	default: return std::pow(v, 1 / power_of(g, gexp));
	}
}
double RS::dec(double v) const {
	switch (g) {
	case GASRGB: return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4);
	case GAROMM: return v <= 0.031248 ? v / 16 : std::pow(v, 1.8);
	case GAUHDTV: return v <= 0.081 ? v / 4.5 : std::pow((v + 0.099) / 1.099, 1 / 0.45);
	default: return std::pow(v, power_of(g, gexp));
	}
}
double hue_norm(double h) { h = std::fmod(h, 360.); if (h < 0) h += 360; return h > 359 ? 359 : h; }
V clamp_to(T t, V v) {
	auto& r = comps_of(t);
	for (size_t i = 0; i < v.size(); ++i) {
		if (r[i].hue && t >= HSI_ && t <= HCY_) v[i] = hue_norm(v[i]);
		else v[i] = clampd(v[i], r[i].lo, r[i].hi);
	}
	return v;
}
double ref_alpha(T from, T to, double a) {
	if (is_true(from) == is_true(to)) return a;
	return is_true(to) ? rnd(a * 255) : a / 255;
}

// ---- RGB family -------------------------------------------------------------------------------------------------
static double hue_of(const V& c, double mx, double d) {
	double r = c[0], g = c[1], b = c[2];
	if (mx == r) return 60 * std::fmod((g - b) / d, 6.);
	if (mx == g) return 60 * ((b - r) / d + 2);
	return 60 * ((r - g) / d + 4);
}
static V from_rgb(T to, const V& c) {
	double mx = std::max(c[0], std::max(c[1], c[2])), mn = std::min(c[0], std::min(c[1], c[2])), d = mx - mn, sum = c[0] + c[1] + c[2];
	switch (to) {
	case RGBT: return V{ rnd(c[0] * 255), rnd(c[1] * 255), rnd(c[2] * 255) };
	case GREYD: return V{ sum / 3 };
	case CMYK_: { if (mx <= 0) return V{ 0, 0, 0, 1 }; double m2 = g_noise ? 1 - nz(1 - mx, 1) : mx; return V{ (m2 - nz(c[0], 1)) / m2, (m2 - nz(c[1], 1)) / m2, (m2 - nz(c[2], 1)) / m2, 1 - mx }; } // black is rounded by itself
	case HSI_: if (d == 0) return V{ 0, 0, mn }; return V{ hue_of(c, mx, d), 1 - mn / (sum / 3), sum / 3 };
	case HSV_: if (d == 0) return V{ 0, 0, mn }; return V{ hue_of(c, mx, d), d / mx, mx };
	case HSL_: { if (d == 0) return V{ 0, 0, mn }; double l = (mx + mn) / 2; double den = std::min(mx + mn, 2 - mx - mn); return V{ hue_of(c, mx, d), d / (grid() ? to_grid(den, 1) : nz(den, 1)), l }; }
	case HCY_: if (d == 0) return V{ 0, 0, mn }; return V{ hue_of(c, mx, d), d, 0.2126 * c[0] + 0.7152 * c[1] + 0.0722 * c[2] };
	default: return c;
	}
}
// pure hue of unit chroma: the hexagon as a trapezoid per channel
static V hex_unit(double h) {
	auto f = [](double x) { x = std::fabs(x); if (x > 180) x = 360 - x; return clampd(2 - x / 60, 0, 1); };
	return V{ f(h), f(h - 120), f(h - 240) };
}
static V to_rgb(T from, const V& c) {
	switch (from) {
	case RGBT: return V{ c[0] / 255, c[1] / 255, c[2] / 255 };
	case GREYT: return V(3, c[0] / 255);
	case GREYD: return V(3, c[0]);
	case CMYK_: return V{ (1 - c[0]) * (1 - c[3]), (1 - c[1]) * (1 - c[3]), (1 - c[2]) * (1 - c[3]) };
	case HSV_: { V u = hex_unit(c[0]); for (auto& x : u) x = c[2] * (1 - c[1]) + c[2] * c[1] * x; return u; }
	case HSL_: { V u = hex_unit(c[0]); double ch = 2 * std::min(c[2], 1 - c[2]) * c[1]; for (auto& x : u) x = c[2] - ch / 2 + ch * x; return u; }
	case HSI_: { V u = hex_unit(c[0]); double z = u[0] + u[1] + u[2]; for (auto& x : u) x = c[2] * (1 - c[1]) + 3 * c[2] * c[1] * x / z; return u; }
	case HCY_: { V u = hex_unit(c[0]); double y = 0.2126 * u[0] + 0.7152 * u[1] + 0.0722 * u[2]; for (auto& x : u) x = c[2] + c[1] * (x - y); return u; }
	default: return c;
	}
}
// ---- CIE family -------------------------------------------------------------------------------------------------
static const double EPS = 216. / 24389, KAPPA = 24389. / 27;
static double lab_f(double t) { return t > EPS ? std::cbrt(t) : (KAPPA * t + 16) / 116; }
static double lab_fi(double f) { double c = f * f * f; return c > EPS ? c : (116 * f - 16) / KAPPA; }
static V from_xyz(T to, const V& c, const RS& s) {
	double X = c[0], Y = c[1], Z = c[2];
	switch (to) {
	case XYY_: if (X == 0 && Y == 0 && Z == 0) return V{ s.wx, s.wy, Y }; return V{ X / (X + Y + Z), Y / (X + Y + Z), Y };
	case LAB_: { double fx = nz(lab_f(X / s.W[0]), 1), fy = nz(lab_f(Y / s.W[1]), 1), fz = nz(lab_f(Z / s.W[2]), 1); return V{ 116 * fy - 16, 500 * (fx - fy), 200 * (fy - fz) }; }
	case LUV_: {
		double den = X + 15 * Y + 3 * Z; if (den == 0) return V{ 0, 0, 0 };
		double dw = s.W[0] + 15 * s.W[1] + 3 * s.W[2], yr = Y / s.W[1];
		double L = yr > EPS ? 116 * std::cbrt(yr) - 16 : KAPPA * yr;
		return V{ L, 13 * L * nz(4 * X / den - 4 * s.W[0] / dw, 1), 13 * L * nz(9 * Y / den - 9 * s.W[1] / dw, 1) };
	}
	default: return c;
	}
}
static V to_xyz(T from, const V& c, const RS& s) {
	switch (from) {
	case XYY_: if (c[1] == 0) return V{ 0, 0, 0 }; return V{ c[0] * c[2] / c[1], c[2], (1 - c[0] - c[1]) * c[2] / c[1] };
	case LAB_: { double fy = nz((c[0] + 16) / 116, 1); double y = c[0] > KAPPA * EPS ? fy * fy * fy : c[0] / KAPPA;
		return V{ s.W[0] * lab_fi(nz(c[1] / 500 + fy, 1)), s.W[1] * y, s.W[2] * lab_fi(nz(fy - c[2] / 200, 1)) }; }
	case LUV_: {
		if (c[0] == 0) return V{ 0, 0, 0 };
		double dw = s.W[0] + 15 * s.W[1] + 3 * s.W[2], L = c[0];
		double Y = s.W[1] * (L > KAPPA * EPS ? std::pow((L + 16) / 116, 3) : L / KAPPA);
		double up = nz(c[1] / (13 * L) + 4 * s.W[0] / dw, 1 + std::fabs(c[1] / (13 * L))), vp = nz(c[2] / (13 * L) + 9 * s.W[1] / dw, 1 + std::fabs(c[2] / (13 * L)));
		return V{ Y * 9 * up / (4 * vp), Y, Y * (12 - 3 * up - 20 * vp) / (4 * vp) };
	}
	default: return c;
	}
}
static V polar(const V& c) { double h = std::atan2(c[2], c[1]) * 180 / M_PI; if (h < 0) h += 360; return V{ c[0], std::hypot(c[1], c[2]), h }; }
static V cart(const V& c) { double h = c[2] * M_PI / 180; return V{ c[0], c[1] * std::cos(h), c[1] * std::sin(h) }; }

static V to_xyz_any(T f, const V& v, const RS& s) {
	if (f == XYZ_) return v;
	if (f == LCHAB) return to_xyz_any(LAB_, nz(clamp_to(LAB_, cart(v)), 5 * std::fabs(v[1])), s);
	if (f == LCHUV) return to_xyz_any(LUV_, nz(clamp_to(LUV_, cart(v)), 5 * std::fabs(v[1])), s);
	if (f >= XYY_) return nz(clamp_to(XYZ_, to_xyz(f, v, s)), 0);
	V rgb = f == RGBD ? v : nz(clamp_to(RGBD, to_rgb(f, v)), is_true(f) ? 0 : 1);
	for (auto& x : rgb) x = clampd(s.dec(x), 0, 1);
	return clamp_to(XYZ_, mulnz(s.M, rgb));
}
V ref_conv(T f, T t, const V& v, const RS& s) {
	if (f == t) return v;
	if (t == LCHAB) return clamp_to(t, polar(f == LAB_ ? v : nz(ref_conv(f, LAB_, v, s), 100)));
	if (t == LCHUV) return clamp_to(t, polar(f == LUV_ ? v : nz(ref_conv(f, LUV_, v, s), 100)));
	if (f == LCHAB && t == LAB_) return clamp_to(t, cart(v));
	if (f == LCHUV && t == LUV_) return clamp_to(t, cart(v));
	if (t >= XYZ_) { V x = to_xyz_any(f, v, s); return t == XYZ_ ? x : clamp_to(t, from_xyz(t, x, s)); }
	// target in the RGB family
	if (f == GREYT && t == RGBT) return V(3, v[0]);
	if (f == RGBT && t == GREYT) return V{ (v[0] + v[1] + v[2]) / 3 };
	if (f == GREYD && t == GREYT) return V{ rnd(v[0] * 255) };
	if (f == GREYT && t == GREYD) return V{ v[0] / 255 };
	V rgb;
	if (f == RGBD) rgb = v;
	else if (!is_cie(f)) rgb = nz(clamp_to(RGBD, to_rgb(f, v)), is_true(f) ? 0 : 1);
	else { rgb = mulnz(s.Mi, to_xyz_any(f, v, s)); for (auto& x : rgb) x = clampd(s.enc(clampd(x, 0, 1)), 0, 1); rgb = nz(rgb, 0); }
	if (t == RGBD) return rgb;
	if (t == GREYT) { V q = from_rgb(RGBT, rgb); return V{ (q[0] + q[1] + q[2]) / 3 }; }
	return clamp_to(t, from_rgb(t, rgb));
}

// ---- distances --------------------------------------------------------------------------------------------------
double deltaE94(const V& a, const V& b, double kL, double k1, double k2, double kC, double kH) {
	double c1 = std::hypot(a[1], a[2]), c2 = std::hypot(b[1], b[2]); c1 = nz(c1, c1); c2 = nz(c2, c2); double dC = c1 - c2, d2 = std::pow(a[1] - b[1], 2) + std::pow(a[2] - b[2], 2);
	double h2 = std::max(0., nz(d2 - dC * dC, d2)), dL = a[0] - b[0];
	double sc = 1 + k1 * c1, sh = 1 + k2 * c1;
	return std::sqrt(std::pow(dL / kL, 2) + std::pow(dC / (kC * sc), 2) + h2 / std::pow(kH * sh, 2));
}
double deltaE00(const V& p, const V& q, double kL, double k1, double k2, double kC, double kH) {
	double C1 = std::hypot(p[1], p[2]), C2 = std::hypot(q[1], q[2]), m = (C1 + C2) / 2, r = M_PI / 180;
	double G = 0.5 * (1 - std::sqrt(std::pow(m, 7) / (std::pow(m, 7) + std::pow(25., 7))));
	double a1 = p[1] * (1 + G), a2 = q[1] * (1 + G), c1 = std::hypot(a1, p[2]), c2 = std::hypot(a2, q[2]), mc = (c1 + c2) / 2;
	double h1 = (a1 == 0 && p[2] == 0) ? 0 : std::atan2(p[2], a1) / r, h2 = (a2 == 0 && q[2] == 0) ? 0 : std::atan2(q[2], a2) / r;
	if (h1 < 0) h1 += 360; if (h2 < 0) h2 += 360;
	double dh = h2 - h1, H = (h1 + h2) / 2;
	if (c1 * c2 == 0) { dh = 0; H = h1 + h2; }
	else { if (dh > 180) dh -= 360; else if (dh < -180) dh += 360; if (std::fabs(h1 - h2) > 180) H += (h1 + h2 < 360) ? 180 : -180; }
	double dL = q[0] - p[0], dC = c2 - c1, dH = 2 * std::sqrt(c1 * c2) * std::sin(r * dh / 2), mL = (p[0] + q[0]) / 2;
	double Tt = 1 - .17 * std::cos(r * (H - 30)) + .24 * std::cos(r * 2 * H) + .32 * std::cos(r * (3 * H + 6)) - .2 * std::cos(r * (4 * H - 63));
	double sL = 1 + k2 * std::pow(mL - 50, 2) / std::sqrt(20 + std::pow(mL - 50, 2)), sC = 1 + k1 * mc, sH = 1 + k2 * mc * Tt;
	double RT = -2 * std::sqrt(std::pow(mc, 7) / (std::pow(mc, 7) + std::pow(25., 7))) * std::sin(r * 60 * std::exp(-std::pow((H - 275) / 25, 2)));
	double e = std::pow(dL / (kL * sL), 2) + std::pow(dC / (kC * sC), 2) + std::pow(dH / (kH * sH), 2) + RT * dC / (kC * sC) * dH / (kH * sH);
	return std::sqrt(std::max(0., e));
}
double deltaCMC(const V& p, const V& q, double l, double c) {
	double L = p[0], C = std::hypot(p[1], p[2]), C2 = std::hypot(q[1], q[2]); C = nz(C, C); C2 = nz(C2, C2); double dC = C - C2, r = M_PI / 180, d2 = std::pow(p[1] - q[1], 2) + std::pow(p[2] - q[2], 2);
	double dH2 = std::max(0., nz(d2 - dC * dC, d2)), H = nz(std::atan2(p[2], p[1]) / r, 360);
	if (H < 0) H += 360;
	double F = std::sqrt(std::pow(C, 4) / (std::pow(C, 4) + 1900));
	double Tt = (H > 164 && H <= 345) ? .56 + std::fabs(.2 * std::cos(r * (H + 168))) : .36 + std::fabs(.4 * std::cos(r * (H + 35)));
	double sL = L < 16 ? .511 : .040975 * L / (1 + .01765 * L), sC = .0638 * C / (1 + .0131 * C) + .638, sH = sC * (F * Tt + 1 - F);
	return std::sqrt(std::pow((L - q[0]) / (l * sL), 2) + std::pow(dC / (c * sC), 2) + dH2 / (sH * sH));
}
// ---- published illuminants (tristimulus for Y=1, chromaticity) ----------------------------------------------------
const std::vector<WP>& wps() {
	static std::vector<WP> w = {
#define W_(n, X, Z, x, y) { #n, X, 1., Z, x, y, &white_point_presets::n },
#include "illuminants.inc"
#undef W_
	};
	return w;
}
