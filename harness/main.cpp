// vh PROP --tier quick|thorough --seed N --chunk I --chunks N --out FILE [--load F] [--replay]
#include "ref.h"
#include <csignal>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>

std::map<std::string, PropFn>& registry() { static std::map<std::string, PropFn> r; return r; }
PropReg::PropReg(const char* i, PropFn f) { registry()[i] = f; }

static Ctx* g_ctx;
// Watchdog in CPU time: no single operation of this library takes more than microseconds.
static const int HANG_CPU_S = 40;
void vh_watchdog_kick() {
	static unsigned n = 0;
	if ((n++ & 255) == 0) { itimerval t = { { 0, 0 }, { HANG_CPU_S, 0 } }; setitimer(ITIMER_PROF, &t, nullptr); }
}
static void say(const char* kind) {
	char b[300]; int n = snprintf(b, sizeof b, "\nVH-%s prop=%s site=%s case=%llu chunk=%d\n", kind, g_ctx ? g_ctx->prop.c_str() : "?", (const char*)Ctx::current, g_ctx ? (unsigned long long)g_ctx->caseno : 0, g_ctx ? g_ctx->chunk : 0);
	if (write(2, b, n)) {}
}
static void on_hang(int) { say("HANG"); _exit(77); }
static void on_term() { say("TERMINATE"); abort(); }
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void on_death() { say("DEATH"); }
#define HAVE_SAN 1
#endif
#endif

static std::string js(const std::string& s) {
	std::string o = "\"";
	for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch > 126) o += sfmt("\\u%04x", ch); else o += ch; }
	return o + "\"";
}
static std::string jv(const std::map<std::string, Viol>& m) {
	std::string s = "[";
	for (auto& e : m) s += std::string(s.size() > 1 ? "," : "") + "{\"site\":" + js(e.second.site) + ",\"msg\":" + js(e.second.msg) + sfmt(",\"count\":%llu,\"chunk\":%d,\"case\":%llu}", (unsigned long long)e.second.count, e.second.chunk, (unsigned long long)e.second.caseno);
	return s + "]";
}
extern "C" int __llvm_profile_write_file(void) __attribute__((weak)); // in coverage builds
int main(int argc, char** argv) {
	if (argc < 2) return 2;
	Ctx c; c.prop = argv[1]; std::string out;
	for (int i = 2; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&] { return i + 1 < argc ? argv[++i] : (char*)"0"; };
		if (a == "--tier") c.thorough = std::string(nx()) == "thorough";
		else if (a == "--seed") c.seed = strtoull(nx(), 0, 10);
		else if (a == "--chunk") c.chunk = atoi(nx());
		else if (a == "--chunks") c.nchunks = atoi(nx());
		else if (a == "--load") c.load = atof(nx());
		else if (a == "--out") out = nx();
		else if (a == "--digest") c.digest = nx(); // where C01 leaves a hash of every result, to be compared between builds
	}
	if (!registry().count(c.prop)) { fprintf(stderr, "unknown property\n"); return 2; }
	c.rng = Rng(Rng::mix(c.seed) ^ Rng::mix(c.chunk * 1000003ull + 17) ^ std::hash<std::string>()(c.prop));
	g_ctx = &c;
	signal(SIGPROF, on_hang);
	std::set_terminate(on_term);
#ifdef HAVE_SAN
	__sanitizer_set_death_callback(on_death);
#endif
	vh_watchdog_kick();
	try { registry()[c.prop](c); }
	catch (const std::exception& e) { fprintf(stderr, "VH-ERROR %s\n", e.what()); return 3; }
	itimerval z = { { 0, 0 }, { 0, 0 } }; setitimer(ITIMER_PROF, &z, nullptr);
	rusage ru; getrusage(RUSAGE_SELF, &ru);
	std::string s = "{\"evals\":" + std::to_string(c.evals) + ",\"illconditioned\":" + std::to_string(c.illcond) + ",\"maxrss_kb\":" + std::to_string(ru.ru_maxrss)
		+ ",\"typed\":" + (typed_available ? "true" : "false") + ",\"rule\":" + js(c.rule) + ",\"viols\":" + jv(c.viols) + ",\"known\":" + jv(c.known) + ",\"events\":{";
	bool f = true;
	for (auto& e : c.events) { s += (f ? "" : ",") + js(e.first) + ":" + std::to_string(e.second); f = false; }
	s += "},\"samples\":["; f = true;
	for (auto& e : c.samples) { s += (f ? "" : ",") + js(e); f = false; }
	s += "]}\n";
	if (out.empty()) fputs(s.c_str(), stdout);
	else {
		FILE* o = fopen(out.c_str(), "w"); if (!o) return 3; fputs(s.c_str(), o); fclose(o);
		o = fopen((out + ".cov").c_str(), "wb"); if (!o) return 3;
		for (uint64_t h : c.distinct) fwrite(&h, 8, 1, o);
		fclose(o);
	}
	if (__llvm_profile_write_file) __llvm_profile_write_file();
	fflush(nullptr);
	_exit(0);
}
