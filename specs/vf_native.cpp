// Native implementation of the specification interface: inputs come from libFuzzer data, or from the values of a
// counterexample (VF_REPLAY).
#include "vf.h"
#include <cstdio>
#include <csetjmp>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
#include <vector>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
VfReg::VfReg(char const* n, void (*f)()) { reg()[n] = f; }

static uint8_t const* g_d; static size_t g_left;
static bool g_replay;
struct Val { std::string name, v; };
static std::vector<Val> g_vals; static size_t g_vi;
static jmp_buf g_jmp;
static std::vector<void*> g_bufs;
static std::string g_trace;
static bool g_dotrace;
static std::map<std::string, unsigned long> g_covers;
static unsigned long g_runs, g_done;

static void report(char const* kind, char const* what)
{
	fprintf(stderr, "\nVF-FAIL: %s: %s\n", kind, what);
	if(g_dotrace) fprintf(stderr, "VF-TRACE:\n%s", g_trace.c_str());
	fflush(stderr);
}

static uint8_t byte() { if(!g_left) return 0; g_left--; return *g_d++; }
static u64 raw(int n) { u64 v = 0; for(int i = 0; i < n; i++) v |= (u64)byte() << (8 * i); return v; }

static void tr(char const* n, u64 v)
{
	if(!g_dotrace) return;
	char b[200]; snprintf(b, sizeof b, "  %s = %llu (0x%llx)\n", n, (unsigned long long)v, (unsigned long long)v); g_trace += b;
}

extern "C" {
u64 vf_u(int bits, char const* name)
{
	u64 m = bits == 64 ? ~0ull : (1ull << bits) - 1;
	u64 v;
	if(g_replay) {
		v = g_vi < g_vals.size() ? strtoull(g_vals[g_vi].v.c_str(), nullptr, 10) : 0;
		g_vi++;
	} else if(bits == 1) v = byte() & 1;
	else if(bits == 8) v = byte();
	else {
		uint8_t c = byte();
		if(c < 128) v = c & 127;
		else if(c < 160) v = byte();
		else if(c < 192) v = raw(bits / 8);
		else if(c < 208) v = raw(2);
		else {
			static u64 const e[] = {0, 1, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull};
			v = e[byte() % (sizeof(e) / sizeof(*e))];
			if(c & 1) v -= byte() & 15;
		}
	}
	v &= m;
	tr(name, v);
	return v;
}
bool vf_isnative() { return !g_replay; }
void vf_skip() { longjmp(g_jmp, 1); }
void vf_assume(bool c) { if(!c) vf_skip(); }
void vf_assert_(bool c, char const* what)
{
	if(c) return;
	report("specification", what);
	abort();
}
void vf_cover_(char const* what) { g_covers[what]++; }
void* vf_alloc(size_t n, char const* name)
{
	if(n > (1u << 24)) vf_skip();
	uint8_t* p = (uint8_t*)malloc(n ? n : 1);
	if(n == 0) { free(p); p = (uint8_t*)malloc(0); }
	g_bufs.push_back(p);
	if(g_replay) {
		std::string const& h = g_vi < g_vals.size() ? g_vals[g_vi].v : std::string(); g_vi++;
		for(size_t i = 0; i < n; i++) p[i] = 2 * i + 1 < h.size() ? (uint8_t)strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16) : 0;
	} else
		for(size_t i = 0; i < n; i++) p[i] = byte();
	if(g_dotrace) {
		g_trace += "  "; g_trace += name; g_trace += " = [" + std::to_string(n) + "] ";
		for(size_t i = 0; i < n && i < 600; i++) { char b[4]; snprintf(b, 4, "%02x", p[i]); g_trace += b; }
		g_trace += "\n";
	}
	return p;
}
void vf_string_any(std::string* s, char const* name)
{
	size_t n = g_replay ? (size_t)vf_u(64, name) : (size_t)vf_nsize(name, 300);
	char* p = (char*)vf_alloc(n, name);
	s->assign(p, n);
}
void vf_invariant_(bool (*)()) {}
void vf_invariant_at_(bool (*)(u64)) {}
void vf_invariant_at2_(bool (*)(u64, u64)) {}
void vf_invariant_at2n_(bool (*)(u64, u64)) {}
void vf_invariant_atm_(bool (*)(u64, u64)) {}
void vf_lean_(bool) {}
void vf_closed_(char const*) {}
void vf_recursive_(char const*) {}
void vf_invariant_forall_(bool (*)(u64)) {}
void vf_region_(bool (*)(u64)) {}
void vf_region_if_(bool (*)(u64)) {}
void vf_specfn_(char const*, bool (*)(u64), int) {}
u64 vf_app1(char const*, u64) { return 1; }
u64 vf_app2(char const*, u64, u64) { return 1; }
void vf_split_(void const*, size_t, int) {}
void vf_unroll_(int) {}
void vf_note(char const* t) { if(g_dotrace) { g_trace += "  "; g_trace += t; g_trace += "\n"; } }
void vf_unroll_outer_(int) {}
void vf_merge_(bool) {}
void vf_const_(u64) {}
int vf_fork(int n) { return (int)(vf_u(8, "fork") % (unsigned)n); }
u64 vf_concretize(u64 v, u64) { return v; }
void vf_havoc_(void* p, size_t n, char const* name) { void* q = vf_alloc(n, name); memcpy(p, q, n); }
u64 vf_nsize(char const* name, u64 max)
{
	if(g_replay) return vf_u(64, name);
	uint8_t c = byte();
	u64 v;
	if(c < 200) v = c % 40;
	else v = raw(2) % (max + 1);
	tr(name, v);
	return v;
}
bool vf_nmore(char const* name)
{
	if(g_replay) return vf_u(1, name);
	if(!g_left) { tr(name, 0); return false; }
	bool v = byte() != 0xff; tr(name, v);
	return v;
}
void __assert_fail(char const* e, char const* f, unsigned l, char const* fn)
{
	std::string s = std::string(e) + " at " + f + ":" + std::to_string(l);
	report("code assertion", s.c_str());
	abort();
}
void __asan_on_error() { report("address sanitizer", "memory error"); }
void __ubsan_on_report() { report("undefined behaviour sanitizer", "undefined behaviour"); }
}

static void (*g_fn)();
static void runone()
{
	g_trace.clear();
	g_runs++;
	if(!setjmp(g_jmp)) {
		try { g_fn(); g_done++; }
		catch(std::exception& e) { report("exception", e.what()); abort(); }
	}
	for(void* p : g_bufs) free(p);
	g_bufs.clear();
}

static void stats()
{
	if(char const* o = getenv("VF_STATS")) {
		FILE* f = fopen(o, "w"); if(!f) return;
		fprintf(f, "{\"runs\": %lu, \"completed\": %lu, \"covers\": {", g_runs, g_done);
		bool first = true;
		for(auto& c : g_covers) { fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", c.first.c_str(), c.second); first = false; }
		fprintf(f, "}}\n"); fclose(f);
	}
}

extern "C" int LLVMFuzzerInitialize(int*, char***)
{
	if(getenv("VF_LIST")) { for(auto& r : reg()) puts(r.first.c_str()); exit(0); }
	char const* n = getenv("VF_NAME");
	if(!n || !reg().count(n)) { fprintf(stderr, "no such vc\n"); exit(3); }
	g_fn = reg()[n];
	g_dotrace = getenv("VF_TRACE") != nullptr;
	if(char const* r = getenv("VF_REPLAY")) {
		g_replay = true; g_dotrace = true;
		std::ifstream f(r); std::string line;
		while(std::getline(f, line)) { size_t t = line.find('\t'); if(t == std::string::npos) continue; g_vals.push_back({line.substr(0, t), line.substr(t + 1)}); }
		runone();
		puts("VF-REPLAY: no failure");
		_exit(0);
	}
	atexit(stats);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(uint8_t const* d, size_t n)
{
	g_d = d; g_left = n;
	runone();
	return 0;
}
