// Catalogue of every public operation of the library, in a form in which the monitors for C01, C02, C03 and C25 can run
// any of them on generated arguments.
#pragma once
#include "ref.h"
struct OpIn {
	color_base* a, * b, * a2;           // two colours of any type, a second one of the type of a
	std::vector<color_base*> list;      // colours of the type of a
	rgb_color_space_definition* def;    // space of the colours
	white_point* w; gamma* g;           // target white, a curve
	matrix<float>* m1, * m2, * sq;      // any shapes, a square one
	T t;                                // a target type
	float x[8], w1, w2; int n[4]; bool p[4];
	std::string text;
	std::vector<color_base*> owned;
	std::string snapshot() const;       // bit exact state of all arguments
	std::string describe() const;
};
struct OpOut {
	std::vector<color_base*> cols; std::vector<double> vals; Outcome oc;
	std::string bits() const;           // bit exact result
	std::string show() const;
};
struct Op { std::string name; std::function<void(OpIn&, OpOut&)> run; bool det, ranged; };
const std::vector<Op>& all_ops();
// What functions handed to the library (custom blends, curve parts of hooked spaces) do besides computing: nothing, unless a monitor sets it.
extern thread_local std::function<void()>* in_callback;
inline void called_back() { if (in_callback) (*in_callback)(); }
enum Wild { TAME, WILD };
OpIn gen_in(Ctx& c, const Space& sp, Wild wild);
void run_op(const Op& op, OpIn& in, OpOut& out);
void free_out(const OpIn& in, OpOut& out);
void free_in(OpIn& in);
std::string range_error(color_base* c); // empty if every component and alpha is in the documented range
inline double class_max(T t) { return is_true(t) ? 255 : t < XYZ_ ? 1 : t == LAB_ ? 128 : 100; } // what color_base clamps to
inline double class_min(T t) { return t == LUV_ ? -100 : t == LAB_ ? -128 : 0; }
