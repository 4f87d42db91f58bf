// Independent double precision reference model of the colour mathematics, written from the published definitions.
#pragma once
#include "h.h"
enum Gam { GA18, GA22, GA26, GA28, GASRGB, GAADOBE, GAROMM, GAUHDTV, GACUSTOM };
struct RS {
	double rx, ry, gx, gy, bx, by;       // primaries
	double W[3], wx, wy;                 // white: tristimulus, chromaticity
	Gam g;
	double gexp = 1;                     // exponent of a custom power curve
	double M[9], Mi[9];
	void derive();
	double enc(double v) const;          // linear -> encoded
	double dec(double v) const;          // encoded -> linear
};
double nz(double x, double unit);                      // while g_noise is set: x with an error of single precision size
bool inv3(const double* a, double* out);
void mul3(const double* a, const double* b, double* out);
V mulv(const double* a, const V& v);
inline double clampd(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
double hue_norm(double h);                              // wrapped into [0,360) and capped at 359 as documented
V clamp_to(T t, V v);                                   // what a constructor of the type keeps
V ref_conv(T from, T to, const V& v, const RS& s);      // colour conversion
double ref_alpha(T from, T to, double a);
double deltaE94(const V& l1, const V& l2, double kL, double k1, double k2, double kC, double kH);
double deltaE00(const V& l1, const V& l2, double kL, double k1, double k2, double kC, double kH);
double deltaCMC(const V& l1, const V& l2, double l, double c);
struct WP { const char* name; double X, Y, Z, x, y; white_point* (white_point_presets::*fn)(); };
const std::vector<WP>& wps();
