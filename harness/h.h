// Shared infrastructure of the ColorMagic monitors: random generator, run context (events, violations, evidence),
// adapters to the public API, colour generators.
#pragma once
#include "manipulation/color_converter.h"
#include "manipulation/chromatic_adaptation.h"
#include "manipulation/color_adjustments.h"
#include "manipulation/color_blend.h"
#include "manipulation/porter_duff.h"
#include "manipulation/color_calculation.h"
#include "manipulation/color_combinations.h"
#include "manipulation/color_distance.h"
#include "utils/matrix.h"
#include "utils/colors.h"
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

using namespace color_space;
using namespace color_manipulation;
typedef std::vector<double> V;

enum T { RGBT, RGBD, GREYT, GREYD, CMYK_, HSI_, HSV_, HSL_, HCY_, XYZ_, XYY_, LUV_, LAB_, LCHAB, LCHUV, NT };
extern const char* const TNAME[NT];
extern const color_type TENUM[NT];
T type_of(const color_base* c); // NT if undefined

struct Comp { double lo, hi; bool hue; double unit; }; // unit: magnitude of ordinary values, scales tolerances
const std::vector<Comp>& comps_of(T t); // documented component ranges
inline bool is_true(T t) { return t == RGBT || t == GREYT; }
inline double alpha_max(T t) { return is_true(t) ? 255. : 1.; }
inline double fl_(double v) { return (double)(float)v; }
inline bool is_cie(T t) { return t >= XYZ_; }

struct Rng {
	uint64_t s[2];
	explicit Rng(uint64_t seed = 1) { s[0] = mix(seed); s[1] = mix(s[0] + 0x9e3779b97f4a7c15ull); if (!(s[0] | s[1])) s[0] = 1; }
	static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t next() { uint64_t a = s[0], b = s[1]; s[0] = b; a ^= a << 23; s[1] = a ^ b ^ (a >> 17) ^ (b >> 26); return s[1] + b; }
	double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	double range(double lo, double hi) { return lo + (hi - lo) * u(); }
	int below(int n) { return (int)(next() % (uint64_t)n); }
	bool chance(double p) { return u() < p; }
	template <class X> const X& pick(const std::vector<X>& v) { return v[below((int)v.size())]; }
};

struct Viol { std::string site, msg; uint64_t count; int chunk; uint64_t caseno; };

struct Ctx {
	std::string prop; bool thorough = false; uint64_t seed = 1; int chunk = 0, nchunks = 1; double load = 1; Rng rng; std::string digest;
	uint64_t evals = 0, caseno = 0, illcond = 0, unexpected = 0;
	std::unordered_set<uint64_t> distinct;
	std::map<std::string, uint64_t> events;      // what the monitors observed, per site
	std::map<std::string, Viol> viols;           // first witness per site
	std::map<std::string, Viol> known;           // deviations that match an exactly described defect
	std::vector<std::string> samples;
	std::string rule;
	V last[5], last_gamut[16];                    // numbers of the previous colours (by component count / by type)
	bool dead = false;                            // set once a case ended in an unexpected way that makes going on pointless
	// share of this process of a number of random cases
	int scale(int quick, int deep) const { double n = (thorough ? deep : quick) * load / nchunks; return n < 1 ? 1 : (int)n; }
	// enumerated cases are dealt out to the processes
	bool mine(uint64_t i) const { return (int)(i % (uint64_t)nchunks) == chunk; }
	void event(const std::string& site, uint64_t n = 1) { events[site] += n; }
	void cover(uint64_t h) { distinct.insert(h); }
	void cover(const std::string& s, uint64_t h) { distinct.insert(Rng::mix(std::hash<std::string>()(s) ^ Rng::mix(h))); }
	void sample(const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	void fail(const std::string& site, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	void knownf(const std::string& id, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	void tick(const char* site);
	static const char* volatile current;
};
std::string sfmt(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string show(const V& v);
std::string show(color_base* c);

// Outcome of a call that may throw by pointer or by value.
struct Outcome { enum K { OK, INVALID, RANGE, OTHERSTD, FOREIGN } k = OK; std::string what; bool threw() const { return k != OK; } };
Outcome attempt(const std::function<void()>& f);
// Runs a case; an exception that nobody expects is a violation of the property under test.
void guarded(Ctx& c, const std::string& site, const std::function<std::string()>& describe, const std::function<void()>& f);

// Owns the colours a case produces (each pointer once, however often it is handed in).
struct Pool {
	std::set<color_base*> own;
	template <class X> X* operator()(X* p) { if (p) own.insert(p); return p; }
	void operator()(const std::vector<color_base*>& v) { for (auto p : v) (*this)(p); }
	~Pool() { for (auto p : own) delete p; }
	Pool() {} Pool(const Pool&) = delete; Pool& operator=(const Pool&) = delete;
};

V comps(const color_base* c);
color_base* make(T t, const V& v, double alpha, rgb_color_space_definition* s); // through the public constructor
color_base* generic_convert(color_base* c, T t);                               // convertTo
color_base* to_x(color_base* c, T t);                                          // to_<type>(color_base*)
color_base* typed_convert(color_base* c, T t);                                 // <from>_to_<to>(typed), nullptr if from==to
color_base* clone(color_base* c);                                              // copy constructor of its type

void set_named(color_base* c, int i, float v);                                 // red(v), hue(v), ...
float get_named(color_base* c, int i);
void assign_typed(color_base* dst, color_base* src);                           // operator= of the type of dst
color_base* from_base(T t, const color_base& src);                             // constructor from a generic colour reference
color_base* typed_add(color_base* a, color_base* b, float w1, float w2, bool alpha);
color_base* typed_mix(color_base* a, color_base* b, float w, bool alpha);
color_base* typed_subtract(color_base* a, color_base* b, float w, bool alpha);
color_base* average(T t, const std::vector<color_base*>& v, bool alpha);
struct NamedBlend { const char* name; color_base* (*fn)(color_base* s, color_base* d, bool us, bool ud); };
const std::vector<NamedBlend>& pd_ops();
const std::vector<NamedBlend>& blend_ops();
const std::vector<NamedBlend>& hcy_blend_ops();
struct NamedAdapt { const char* name; color_base* (*fn)(color_base* c, white_point* w, float f, float la, float lr); };
const std::vector<NamedAdapt>& adapt_ops();

struct Space { std::string name; rgb_color_space_definition* def; struct RS* ref; };
const std::vector<Space>& presets();             // the 20 presets, each with its independent reference description
const std::vector<Space>& custom_spaces(uint64_t seed);
Space random_space(Rng& r, bool imaginary = false); // imaginary: primaries outside the real colours
const Space& pick_space(Ctx& c, bool living = false); // mostly presets, sometimes custom; living: may be the one object whose contents change from case to case

// Bit exact snapshot of colours and of everything they refer to.
// The same, and once in a while again after one of the arguments has been given other numbers in place: nothing may be
// remembered about an object.
void guarded2(Ctx& c, Pool& P, const Space& sp, color_base* a, color_base* b, const std::string& site, const std::function<std::string()>& describe, const std::function<void()>& f, const std::function<void()>& vary = nullptr); // vary changes one parameter of f
std::string snapshot(color_base* c);
std::string snapshot(rgb_color_space_definition* d);
std::string snapshot(white_point* w);
std::string snapshot(gamma* g);

enum GenMode { G_UNIFORM, G_EDGE, G_GREY, G_GAMUT, G_NEAR, G_ANY };
double gen_alpha(Ctx& c, T t);
V gen(Ctx& c, T t, const Space& s, GenMode m = G_ANY);
color_base* gen_color(Ctx& c, T t, const Space& s, GenMode m = G_ANY);
color_base* gen_partner(Ctx& c, Pool& P, color_base* a, T u, const Space& s); // another colour of type u, or one related to a (of any type; of a's type if u is)
void maybe_elsewhere(Ctx& c, color_base* b); // moves a colour to another RGB space now and then
float hostile(Rng& r); // NaN, infinities, denormals, huge, negative
color_base* gen_hostile(Ctx& c, T t, rgb_color_space_definition* d);

// got vs ref(in), with a tolerance that adapts to the local condition of ref (maximum change of ref under
// perturbations of the input of the size of single precision rounding).
struct Close { bool ok; V exp, tol; bool ill; };
Close close(const V& got, const std::function<V(const V&)>& ref, const V& in, const std::vector<Comp>& inRange, const std::vector<Comp>& outRange, double base = 2e-5, double factor = 3, bool full = false); // full: always measure the condition
extern thread_local uint64_t g_noise;        // see ref.cpp
extern thread_local double g_round_bias; // the reference rounds x + g_round_bias, so that both neighbours of a tie are admitted
inline double rnd(double x) { return std::round(x + g_round_bias); }
extern bool typed_available;
double hue_diff(double a, double b);

typedef void (*PropFn)(Ctx&);
struct PropReg { const char* id; PropFn fn; PropReg(const char* i, PropFn f); };
std::map<std::string, PropFn>& registry();
#define PROPERTY(ID) static void run_##ID(Ctx& c); static PropReg reg_##ID(#ID, run_##ID); static void run_##ID(Ctx& c)
inline uint64_t bucket(const V& v, const std::vector<Comp>& r, int n = 16) {
	uint64_t h = 1; for (size_t i = 0; i < v.size(); ++i) { double q = std::floor((v[i] - r[i].lo) / (r[i].hi - r[i].lo) * n); h = h * 1315423911u + (uint64_t)(int64_t)(q == q && std::fabs(q) < 1e9 ? q : -1); } return h;
}
