// C01 memory and undefined behaviour, C02 ranges, C03 inputs unchanged, C25 concurrency
#include "ops.h"
#include <atomic>
#include <locale>
#include <mutex>
#include <pthread.h>
#include <thread>

// Spaces nobody would define on purpose.
static Space wild_space(Ctx& c) {
	Rng& r = c.rng;
	static std::vector<Space>* pool = nullptr; // the library shares these, so they live for ever
	if (!pool) {
		pool = new std::vector<Space>;
		pool->push_back(Space{ "default constructed", new rgb_color_space_definition(), presets()[0].ref });
		for (int k = 0; k < 40; ++k) {
			float p[6]; for (auto& x : p) x = k % 3 == 0 ? hostile(r) : k % 3 == 1 ? .3f : (float)r.range(-1, 2);
			white_point* w = k % 4 == 0 ? new white_point() : k % 4 == 1 ? new white_point(hostile(r), hostile(r), hostile(r)) : new white_point((float)r.u(), (float)r.u());
			gamma* g = k % 5 == 0 ? new gamma() : k % 5 == 1 ? new gamma(std::vector<gamma_part*>{ nullptr, new gamma_part() }, std::vector<gamma_part*>{ nullptr }) :
				k % 5 == 2 ? new gamma(std::vector<gamma_part*>{ new gamma_part([](float x) { return 1 / x; }) }, std::vector<gamma_part*>{ new gamma_part([](float x) { return std::log(x); }) }) : presets()[k % 20].def->get_gamma_curve();
			pool->push_back(Space{ "degenerate", new rgb_color_space_definition(p[0], p[1], p[2], p[3], p[4], p[5], w, g), presets()[0].ref });
		}
	}
	return r.pick(*pool);
}
static uint64_t case_hash(OpIn& in) { return bucket(comps(in.a), comps_of(type_of(in.a)), 4) * 31 + type_of(in.a) * 17 + type_of(in.b); }

PROPERTY(C01) {
	c.rule = "a case is one call of one of the catalogued public operations on generated (half of them hostile: NaN, infinities, out of range, degenerate spaces, malformed text, extreme counts) arguments, executed under ASan+UBSan without recovery and, in a second stage, under valgrind memcheck; distinct = (operation, outcome, argument bucket)";
	auto& ops = all_ops();
	for (int len : { 0, 1, 5, 9, 10, 100, 5000, 60000, 400000 }) for (const char* pre : { "", "#", "##" }) for (const char* post : { "", "g", "\n" }) { // a text of any length and shape is a colour or is rejected
		if (!c.mine(len + (int)std::strlen(pre) * 3 + (int)std::strlen(post))) continue;
		std::string t = pre + std::string(len, "fA07"[c.rng.below(4)]) + post;
		c.tick("hex text"); c.event("hex text");
		auto o = attempt([&] { delete new rgb_truecolor(t, presets()[0].def); });
		if (o.k != Outcome::OK && o.k != Outcome::INVALID && o.k != Outcome::RANGE && o.k != Outcome::OTHERSTD) c.fail("hex text throws something that is not a standard exception", "%zu characters", t.size());
		c.cover("hex text", len * 97 + (int)std::strlen(pre) * 7 + (int)std::strlen(post));
	}
	FILE* dig = c.digest.empty() ? nullptr : fopen(c.digest.c_str(), "wb");
	int n = c.scale(64000, 2400000);
	for (int k = 0; k < n; ++k) {
		Wild w = c.rng.chance(.6) ? WILD : TAME;
		Space sp = w == WILD && c.rng.chance(.25) ? wild_space(c) : pick_space(c, true);
		OpIn in = gen_in(c, sp, w);
		for (int j = 0; j < 4; ++j) {
			const Op& op = ops[((uint64_t)k * 4 + j + c.chunk * 53) % ops.size()];
			c.tick(op.name.c_str());
			OpOut out; run_op(op, in, out);
			c.event(op.name);
			if (out.oc.k == Outcome::FOREIGN) c.fail(op.name + " throws something that is not a standard exception", "%s", in.describe().c_str());
			// make the sanitizers look at every bit of the result
			uint64_t h = 0; for (unsigned char ch : out.bits()) h = h * 31 + ch; if (h == 0x123456789) c.event("checksum");
			if (dig && op.det) { uint64_t rec[2] = { (uint64_t)k << 16 | (uint64_t)(&op - &ops[0]), h }; fwrite(rec, 8, 2, dig); }
			c.cover(op.name, case_hash(in) * 7 + out.oc.k + (w == WILD ? 1000 : 0));
			if (out.oc.threw()) c.event(out.oc.k == Outcome::INVALID ? "rejected: invalid_argument" : out.oc.k == Outcome::RANGE ? "rejected: out_of_range" : "rejected: other");
			c.sample("%s %s -> %s", op.name.c_str(), in.describe().c_str(), out.show().c_str());
			free_out(in, out);
		}
		free_in(in);
	}
	if (dig) { fclose(dig); FILE* f = fopen((c.digest + ".ops").c_str(), "w"); if (f) { for (auto& o : ops) fprintf(f, "%s\n", o.name.c_str()); fclose(f); } }
}

PROPERTY(C02) {
	c.rule = "a case is one call of one of the catalogued operations; the monitor checks every component and the alpha of every colour it hands out; distinct = (operation, argument bucket)";
	std::vector<const Op*> ops; for (auto& o : all_ops()) if (o.ranged) ops.push_back(&o);
	int n = c.scale(110000, 5000000);
	for (int k = 0; k < n; ++k) {
		Wild w = c.rng.chance(.5) ? WILD : TAME;
		Space sp = w == WILD && c.rng.chance(.15) ? wild_space(c) : pick_space(c, true);
		OpIn in = gen_in(c, sp, w);
		for (auto q : in.owned) { std::string e = range_error(q); c.event("constructed"); if (!e.empty()) c.fail(std::string("constructor ") + TNAME[type_of(q)], "%s in %s", e.c_str(), show(q).c_str()); }
		attempt([&] { // sums of equal types are colours of the base class, bounded like the components of their type
			color_base q = *in.a + *in.a2; double lo = class_min(type_of(in.a)), hi = class_max(type_of(in.a)); auto g = q.get_component_vector(); c.event("operator+");
			for (size_t m = 0; m < g.size(); ++m) if (!(g[m] >= lo && g[m] <= hi)) c.fail("operator+", "component %zu of %s + %s is %.9g", m, show(in.a).c_str(), show(in.a2).c_str(), g[m]); });
		for (int j = 0; j < 4; ++j) {
			const Op& op = *ops[((uint64_t)k * 4 + j + c.chunk * 53) % ops.size()];
			c.tick(op.name.c_str());
			OpOut out; run_op(op, in, out);
			for (auto q : out.cols) if (q) {
				std::string e = range_error(q); c.event(op.name);
				if (!e.empty()) c.fail(op.name, "%s in %s of %s, arguments %s in %s", e.c_str(), show(q).c_str(), op.name.c_str(), in.describe().c_str(), sp.name.c_str());
			}
			c.cover(op.name, case_hash(in)); c.sample("%s -> %s", op.name.c_str(), out.show().c_str());
			free_out(in, out);
		}
		free_in(in);
	}
}

// Runs the operation on the arguments, on unrelated ones, on the arguments with a single aspect changed, and again on both:
// a result that was remembered under an incomplete key, or by an address, gives itself away.
struct Past { OpIn in; std::vector<const Op*> list; std::vector<std::string> ref; };
// Which of the scalar parameters an operation reads: those whose change shows in some result.
static bool flip(OpIn& in, const OpIn& other, int i) { // changes one parameter; false where there is nothing to change
	if (i < 8) { float was = in.x[i]; in.x[i] = other.x[i]; return was != in.x[i]; }
	if (i < 10) { float& w = i == 8 ? in.w1 : in.w2, was = w; w = i == 8 ? other.w1 : other.w2; return was != w; }
	if (i < 14) { in.p[i - 10] = !in.p[i - 10]; return true; }
	if (i == 14) { bool d = in.t != other.t; in.t = other.t; return d; }
	if (i < 19) { bool d = in.n[i - 15] != other.n[i - 15]; in.n[i - 15] = other.n[i - 15]; return d; }
	bool d = in.text != other.text; in.text = other.text; return d;
}
static const int NFLIP = 20;
static const std::vector<int>& reads(Ctx& c, const Op& op) {
	static std::map<const Op*, std::vector<int>> known;
	auto it = known.find(&op); if (it != known.end()) return it->second;
	std::set<int> found;
	for (int k = 0; k < 3; ++k) {
		Space sp = pick_space(c); OpIn in = gen_in(c, sp, TAME), other = gen_in(c, sp, TAME);
		auto bits = [&](OpIn& i) { OpOut o; run_op(op, i, o); std::string s = o.bits(); free_out(i, o); return s; };
		std::string r = bits(in);
		for (int i = 0; i < NFLIP; ++i) if (!found.count(i)) { OpIn w = in; if (flip(w, other, i) && bits(w) != r) found.insert(i); }
		free_in(in); free_in(other);
	}
	return known[&op] = std::vector<int>(found.begin(), found.end());
}
static void interfere(Ctx& c, const Op& op, OpIn& in, OpIn& other) {
	Rng& r = c.rng; std::string aspect; std::function<void()> apply, undo;
	auto change = [&](color_base* q) {
		color_base* was = clone(q); int i = r.below(comps_of(type_of(q)).size()); float f = r.chance(.3) ? 0.f : (float)(get_named(q, i) * r.range(.2, .98));
		apply = [=] { set_named(q, i, f); }; undo = [=] { assign_typed(q, was); }; return was;
	};
	color_base* spare = nullptr; OpIn saved = in;
	auto& rd = reads(c, op); int z = !rd.empty() && r.chance(.5) ? 7 : r.below(13);
	switch (z) {
	case 7: { if (rd.empty()) return; int i = r.pick(rd); OpIn alt = in; if (!flip(alt, other, i)) return; aspect = i < 10 ? "parameter" : i < 14 ? "flag" : i == 14 ? "target type" : i < 19 ? "count" : "text";
		if (r.chance(.3) && i < 10) { if (i < 8) alt.x[i] = in.x[i] * .75f; else (i == 8 ? alt.w1 : alt.w2) = (i == 8 ? in.w1 : in.w2) * .5f; } OpIn now = in;
		apply = [=, &in] { in = alt; }; undo = [=, &in] { in = now; }; break; }
	case 0: { aspect = "space of a"; auto was = in.a->get_rgb_color_space(), d = r.pick(presets()).def; apply = [=, &in] { in.a->set_rgb_color_space(d); }; undo = [=, &in] { in.a->set_rgb_color_space(was); }; break; }
	case 1: { aspect = "space of all"; auto d = r.pick(presets()).def; std::vector<rgb_color_space_definition*> was; for (auto q : in.owned) was.push_back(q->get_rgb_color_space());
		apply = [=, &in] { for (auto q : in.owned) q->set_rgb_color_space(d); in.def = d; }; undo = [=, &in] { for (size_t k = 0; k < in.owned.size(); ++k) in.owned[k]->set_rgb_color_space(was[k]); in.def = saved.def; }; break; }
	case 2: case 3: aspect = "component of a"; spare = change(in.a); break;
	case 4: aspect = "component of b"; spare = change(in.b); break;
	case 5: { aspect = "opacity"; auto q = r.chance(.5) ? in.a : in.b; float was = q->alpha(); apply = [=] { q->alpha(was * .5f); }; undo = [=] { q->alpha(was); }; break; }
	case 6: { aspect = "second argument"; apply = [&] { std::swap(in.a2, in.a); }; undo = [&] { in.a = saved.a; in.b = saved.b; in.a2 = saved.a2; }; break; }
	case 8: { aspect = "white point"; apply = [&] { in.w = other.w; }; undo = [&] { in.w = saved.w; }; break; }
	case 9: { aspect = "white point of the space"; auto was = in.def->get_white_point(); apply = [&] { in.def->set_white_point(other.w); }; undo = [=, &in] { in.def->set_white_point(was); }; break; }
	case 10: { aspect = "curve of the space"; auto was = in.def->get_gamma_curve(); apply = [&] { in.def->set_gamma_curve(other.g); in.g = other.g; }; undo = [=, &in] { in.def->set_gamma_curve(was); in.g = saved.g; }; break; }
	case 11: { aspect = "matrix element"; auto m = r.chance(.4) ? in.sq : r.chance(.5) ? in.m1 : in.m2; if (!m->rows() || !m->columns()) return; int i = r.below(m->rows()), j = r.below(m->columns()); float was = (*m)(i, j);
		apply = [=] { (*m)(i, j) = was * 2 + 1; }; undo = [=] { (*m)(i, j) = was; }; break; }
	default: { aspect = "list"; apply = [&] { std::reverse(in.list.begin(), in.list.end()); if (in.list.size() > 2) in.list.pop_back(); }; undo = [&] { in.list = saved.list; }; break; }
	}
	auto bits = [&](OpIn& i) { OpOut o; run_op(op, i, o); std::string s = o.bits(); free_out(i, o); ++c.evals; return s; };
	auto fresh = in.snapshot();
	std::string a = bits(in); if (r.chance(.7)) bits(other);
	apply(); std::string b = bits(in); undo();
	if (in.snapshot() != fresh) { delete spare; return; } // the change cannot be undone exactly (clamped values)
	c.event("interference: " + aspect);
	if (bits(in) != a) c.fail(op.name + " depends on an earlier call", "another %s in between: %s", aspect.c_str(), in.describe().c_str());
	apply(); if (bits(in) != b) c.fail(op.name + " depends on an earlier call", "another %s (changed now): %s", aspect.c_str(), in.describe().c_str());
	undo(); delete spare;
}
// A space like the given one whose curve tells when it is evaluated.
static Space hooked(const Space& sp) {
	gamma* g = sp.def->get_gamma_curve(); auto part = [](std::function<float(float)> f) { return new gamma_part([f](float x) { called_back(); return f(x); }, 1e30f); };
	Space h{ "hooked " + sp.name, new rgb_color_space_definition(*sp.def), sp.ref };
	h.def->set_gamma_curve(new gamma({ part([g](float x) { return g->gamma_correction(x); }) }, { part([g](float x) { return g->inverse_gamma_correction(x); }) }));
	return h;
}
// A function handed to the library is evaluated in the middle of an operation. Where it throws, the operation fails and no
// argument has changed; where it uses the library itself, neither call notices the other.
static void callbacks(Ctx& c, const Op& op, const Op& op2, const Space& sp) {
	Rng& r = c.rng; OpIn in = gen_in(c, sp, TAME), other = gen_in(c, r.chance(.5) ? sp : pick_space(c), TAME);
	auto bits = [&](const Op& q, OpIn& i, Outcome::K* k = nullptr) { OpOut o; run_op(q, i, o); std::string s = o.bits(); if (k) *k = o.oc.k; free_out(i, o); ++c.evals; return s; };
	struct Hook { Hook(std::function<void()>& f) { in_callback = &f; } ~Hook() { in_callback = nullptr; } };
	c.tick((op.name + " with callbacks").c_str());
	long n = 0; std::string alone; { std::function<void()> f = [&] { ++n; }; Hook h(f); alone = bits(op, in); }
	if (n) {
		long at = (long)(r.u() * n), k = 0; bool nested = false; std::string state = in.snapshot(), state2 = other.snapshot(), alone2 = bits(op2, other), got2; Outcome::K out;
		{ std::function<void()> f = [&] { if (k++ == at) throw std::runtime_error("callback"); }; Hook h(f); bits(op, in, &out); }
		c.event(out == Outcome::OK ? "throwing callback absorbed" : "throwing callback");
		if (in.snapshot() != state) c.fail(op.name + " modifies an argument when a callback throws", "evaluation %ld of %ld, arguments now %s", at, n, in.describe().c_str());
		if (bits(op, in) != alone) c.fail(op.name + " gives another result after a callback threw", "evaluation %ld of %ld: %s", at, n, in.describe().c_str());
		k = 0; bool same = op2.det && r.chance(.3); if (same) alone2 = bits(op2, in);
		{ std::function<void()> f = [&] { if (!nested && k++ == at) { nested = true; got2 = bits(op2, same ? in : other); nested = false; ++k; } }; Hook h(f); std::string now = bits(op, in);
			c.event("nested call"); c.cover("nested", std::hash<std::string>()(op.name + op2.name));
			if (now != alone) c.fail(op.name + " is disturbed by a call from a callback", "%s called in evaluation %ld of %ld: %s", op2.name.c_str(), at, n, in.describe().c_str()); }
		if (!got2.empty() && op2.det && got2 != alone2) c.fail(op2.name + " called from a callback gives another result", "within %s: %s", op.name.c_str(), (same ? in : other).describe().c_str());
		if (in.snapshot() != state || other.snapshot() != state2) c.fail(op.name + " modifies an argument around a call from a callback", "%s within %s: %s", op2.name.c_str(), op.name.c_str(), in.describe().c_str());
	}
	free_in(in); free_in(other);
}
PROPERTY(C03) {
	c.rule = "a case is one call of one of the catalogued operations between two bit exact snapshots of all its arguments (colours, spaces, white points, curves, matrices), repeated once and compared bit exactly; distinct = (operation, argument bucket)";
	auto& ops = all_ops();
	int n = c.scale(60000, 2600000);
	for (int k = 0; k < n; ++k) {
		Wild w = c.rng.chance(.3) ? WILD : TAME;
		Space sp = pick_space(c, true);
		OpIn in = gen_in(c, sp, w);
		std::string before = in.snapshot();
		for (int j = 0; j < 4; ++j) {
			const Op& op = ops[((uint64_t)k * 4 + j + c.chunk * 53) % ops.size()];
			c.tick(op.name.c_str());
			OpOut out, again; run_op(op, in, out);
			std::string b1 = out.bits(), after = in.snapshot();
			c.event(op.name);
			if (after != before) { c.fail(op.name + " modifies an argument", "arguments now %s", in.describe().c_str()); before = after; }
			if (op.det) {
				run_op(op, in, again);
				if (again.bits() != b1) c.fail(op.name + " repeated gives another result", "%s: %s then %s", in.describe().c_str(), out.show().c_str(), again.show().c_str());
				if (in.snapshot() != before) { c.fail(op.name + " modifies an argument", "arguments now %s", in.describe().c_str()); before = in.snapshot(); }
				for (auto q : out.cols) again.cols.push_back(q);
				out.cols.clear();
				free_out(in, again);
			}
			// results do not share state with the arguments: changing a result leaves the arguments alone
			c.cover(op.name, case_hash(in)); c.sample("%s %s", op.name.c_str(), in.describe().c_str());
			free_out(in, out);
		}
		if (k % 3 == 0) {
			static std::vector<Space> with; if (with.empty()) for (auto& q : presets()) with.push_back(hooked(q));
			auto& op = c.rng.pick(ops); auto& op2 = c.rng.pick(ops); if (op.det) callbacks(c, op, op2, c.rng.pick(with));
		}
		static OpIn* prev = nullptr;
		if (prev) { for (int q = 0; q < 3; ++q) { auto& op = c.rng.pick(ops); if (op.det) interfere(c, op, in, *prev); } free_in(*prev); delete prev; }
		prev = new OpIn(in);
	}
}

static const int THREADS = 4;
PROPERTY(C25) {
	c.rule = "a case is one call made by one of four threads that share all arguments, under ThreadSanitizer, compared bit exactly with the same call made alone before and after; distinct = (operation, argument bucket) plus the schedules seen, counted as distinct interleavings of operation starts";
	std::vector<const Op*> ops; for (auto& o : all_ops()) if (o.det) ops.push_back(&o);
	// The standard library fills a per-locale character cache on first use without synchronisation (GCC PR 77704); fill it
	// here, so that only races of the library under test are reported.
	auto& ct = std::use_facet<std::ctype<char>>(std::locale());
	for (int ch = 0; ch < 256; ++ch) { ct.narrow((char)ch, 0); ct.widen((char)ch); }
	int n = c.scale(2400, 60000);
	for (int k = 0; k < n; ++k) {
		Space sp = pick_space(c);
		OpIn in = gen_in(c, sp, c.rng.chance(.2) ? WILD : TAME);
		const int L = 10;
		std::vector<const Op*> list; for (int j = 0; j < L; ++j) list.push_back(ops[((uint64_t)k * L + j + c.chunk * 37) % ops.size()]);
		c.tick("concurrent");
		// half of the cases run the threads first, so that lazily created state is first touched concurrently
		bool first = c.rng.chance(.5);
		std::vector<std::string> ref(L);
		auto alone = [&](std::vector<std::string>& r) { for (int j = 0; j < L; ++j) { OpOut o; run_op(*list[j], in, o); r[j] = o.bits(); free_out(in, o); } };
		if (!first) alone(ref);
		std::vector<std::vector<std::string>> res(THREADS, std::vector<std::string>(L));
		std::vector<uint64_t> seeds; for (int t = 0; t < THREADS; ++t) seeds.push_back(c.rng.next());
		std::atomic<int> go(0); std::vector<std::vector<unsigned>> at(THREADS, std::vector<unsigned>(L)); std::atomic<unsigned> clock(0);
		std::vector<std::thread> th;
		for (int t = 0; t < THREADS; ++t) th.emplace_back([&, t] {
			Rng r(seeds[t]);
			go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < THREADS) std::this_thread::yield();
			// relaxed operations only: the harness must not order the threads
			int off = r.chance(.5) ? 0 : r.below(L);
			for (int q = 0; q < L; ++q) {
				int j = (q + off) % L;
				if (r.chance(.2)) std::this_thread::yield();
				if (r.chance(.1)) for (volatile int w = r.below(2000); w > 0; w = w - 1) {}
				at[t][j] = clock.fetch_add(1, std::memory_order_relaxed);
				OpOut o; run_op(*list[j], in, o); res[t][j] = o.bits(); free_out(in, o);
			}
		});
		for (auto& t : th) t.join();
		if (first) alone(ref);
		uint64_t il = 0; for (auto& v : at) for (unsigned x : v) il = il * 1000003 + x; c.cover("interleaving", il);
		for (int t = 0; t < THREADS; ++t) for (int j = 0; j < L; ++j) {
			c.event(list[j]->name);
			if (res[t][j] != ref[j]) c.fail(list[j]->name + " differs between concurrent and lone execution", "%s", in.describe().c_str());
		}
		for (int j = 0; j < L; ++j) c.cover(list[j]->name, case_hash(in));
		c.evals += L * THREADS;
		// results do not depend on what ran in between: replay an older case, in another order
		{
			static std::vector<Past> ring;
			if (!ring.empty() && k > 24) for (int q = 0; q < 8; ++q) interfere(c, *list[(q + k) % L], in, ring.back().in);
			ring.push_back(Past{ in, list, ref });
			if (ring.size() > 6) {
				size_t q = c.rng.below(6); Past old = ring[q]; ring.erase(ring.begin() + q);
				int off = c.rng.below(L);
				for (int y = 0; y < L; ++y) {
					int j = (L - 1 - y + off) % L; OpOut o; run_op(*old.list[j], old.in, o); ++c.evals; c.event("replayed later");
					if (o.bits() != old.ref[j]) c.fail(old.list[j]->name + " depends on what ran before", "%s: now %s", old.in.describe().c_str(), o.show().c_str());
					free_out(old.in, o);
				}
				free_in(old.in);
			}
		}
		c.sample("4 threads: %s, %s, %s ...", list[0]->name.c_str(), list[1]->name.c_str(), list[2]->name.c_str());
	}
}
