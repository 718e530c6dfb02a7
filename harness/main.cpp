#include "mon.h"
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sched.h>
#include <unordered_set>
#include <unistd.h>
#include <algorithm>

namespace mon {
Rng R;
int64_t U = MS; bool big = false; static const bool force_big = getenv("MON_BIG") != nullptr; // to try the harness itself
std::atomic<long> g_live{ 0 };
static std::vector<Family>& fams() { static std::vector<Family> v; return v; }
void add_family(const char* props, const char* name, void (*fn)(), int weight, bool mt) { fams().push_back(Family{ props, name, fn, weight, mt, 0 }); }
static std::string g_focus;       // empty: all
bool focus(const char* prop)
{
	if (g_focus.empty()) return true;
	std::string p = prop; size_t b = 0;
	while (b <= p.size()) { size_t e = p.find(',', b); if (e == std::string::npos) e = p.size(); if (g_focus.find("," + p.substr(b, e - b) + ",") != std::string::npos) return true; b = e + 1; }
	return false;
}
static const int NC = 512;
static struct { std::atomic<const char*> s; std::atomic<uint64_t> n; } g_cov[NC];
static std::atomic<int> g_ncov{ 0 };
void cover(const char* what)     // one managed thread runs at a time; relaxed, so that no order is created
{
	vs::NoPreempt np;
	int n = g_ncov.load(std::memory_order_relaxed);
	for (int i = 0; i < n; ++i) if (g_cov[i].s.load(std::memory_order_relaxed) == what) { g_cov[i].n.fetch_add(1, std::memory_order_relaxed); return; }
	if (n < NC) { g_cov[n].s.store(what, std::memory_order_relaxed); g_cov[n].n.store(1, std::memory_order_relaxed); g_ncov.store(n + 1, std::memory_order_relaxed); }
}

void World::sched_body(void* p)
{
	Slot* sl = (Slot*)p; World* w = sl->w; int i = sl->i;
	{
		librf::local_scheduler_t ls;
		librf::scheduler_t* s = librf::this_scheduler();
		w->sch[i].store(s, std::memory_order_release);
		w->ready.fetch_add(1, std::memory_order_acq_rel);
		while (w->ready.load(std::memory_order_acquire) < w->n) vs::yield();
		if (w->init) w->init(i);
		for (;;) {
			bool r = s->run_one_batch();
			if (w->after_batch) w->after_batch(i);
			if (r) { vs::busy(); continue; }
			if (w->stop.load(std::memory_order_acquire)) break;
			vs::idle();
		}
		w->gone.fetch_add(1, std::memory_order_acq_rel);
		while (w->gone.load(std::memory_order_acquire) < w->n) vs::yield();
		REQUIRE(s->empty(), "scheduler %d is not empty when everything has finished", i);
	}
}
void World::ext_body(void* p)
{
	Slot* sl = (Slot*)p; World* w = sl->w;
	while (w->ready.load(std::memory_order_acquire) < w->n) vs::yield();
	w->ext[(size_t)sl->i]();
	vs::busy();
}
void World::start()
{
	for (int i = 0; i < n; ++i) { slots[i] = Slot{ this, i }; vs::spawn(&sched_body, &slots[i], vs::SCHEDULER); }
	for (size_t i = 0; i < ext.size(); ++i) { slots[8 + i] = Slot{ this, (int)i }; vs::spawn(&ext_body, &slots[8 + i], vs::EXTERNAL); }
}
void World::spawn_ext(std::function<void()> f)
{
	ext.push_back(std::move(f)); size_t i = ext.size() - 1;
	slots[8 + i] = Slot{ this, (int)i }; vs::spawn(&ext_body, &slots[8 + i], vs::EXTERNAL);
}
void World::finish()
{
	finished = true;
	stop.store(1, std::memory_order_release);
	vs::join_all();
	drop_exceptions();
}
} // namespace mon
#if __has_feature(thread_sanitizer)
// The count inside of an exception object is not visible to ThreadSanitizer: whoever is last destroys it, ordered by that count alone.
// Every exception that is caught is kept until the threads of the case have ended.
struct KeptEx { std::exception_ptr e; KeptEx* next; };
static std::atomic<KeptEx*> kept_ex{ nullptr };
extern "C" void* __real___cxa_begin_catch(void*) noexcept;
extern "C" void* __wrap___cxa_begin_catch(void* x) noexcept
{
	void* r = __real___cxa_begin_catch(x);
	KeptEx* k = new KeptEx{ std::current_exception(), kept_ex.load(std::memory_order_relaxed) };
	while (!kept_ex.compare_exchange_weak(k->next, k, std::memory_order_relaxed)) {}
	return r;
}
void mon::drop_exceptions() { KeptEx* k = kept_ex.exchange(nullptr, std::memory_order_relaxed); while (k) { KeptEx* n = k->next; delete k; k = n; } }
#else
extern "C" void* __real___cxa_begin_catch(void*) noexcept;
extern "C" void* __wrap___cxa_begin_catch(void* x) noexcept { return __real___cxa_begin_catch(x); }
void mon::drop_exceptions() {}
#endif

using namespace mon;
static uint64_t mixh(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }
static uint64_t shash(const char* s) { uint64_t h = 5; while (*s) h = mixh(h, (unsigned char)*s++); return h; }
static double secs() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }

static bool slow(const Family& f) { return strncmp(f.name, "scale_", 6) == 0; }      // few long cases: bounded to a share of the run

static int64_t run_case(Family& f, uint64_t seed)
{
	R.seed(seed);
	srand((unsigned)seed);
	big = force_big || mixh(seed, 77) % 40 == 0; if (big) cover("large case");
	static const int64_t units[] = { 1, 1000, 37 * MS, 1000 * MS, 3600 * 1000 * MS, 24 * 3600 * 1000 * MS, MS * 30 * 24 * 3600 * 1000, 33 * 3600 * 1000 * MS + 1 };
	U = mixh(seed, 99) % 8 ? MS : units[mixh(seed, 98) % (big ? 4 : 8)]; if (U > 1000 * MS) cover("hours and days"); else if (U < MS) cover("microseconds");
	vs::kind_name = nullptr;
	g_live.store(0, std::memory_order_relaxed);
	static const uint64_t steps_max = getenv("MON_STEPS") ? strtoull(getenv("MON_STEPS"), 0, 0) : 240000000ull;
	vs::case_begin(f.name, seed, slow(f) ? 6 * steps_max : steps_max);
	f.fn();
	drop_exceptions();
	vs::case_end();
	int64_t bal = vs::alloc_balance();
	long live = g_live.load(std::memory_order_relaxed);
	if (live != 0) vs::fail("leak: %ld tracked objects still alive at the end of the case", live);
	return bal;
}

int main(int argc, char** argv)
{
	const char* props = "all"; uint64_t seed = 1; int shard = 0, nshards = 1; double tlimit = 5; uint64_t maxc = ~0ull; uint64_t minc = 0;
	const char* outp = nullptr; const char* only = nullptr; uint64_t only_seed = 0; bool list = false; const char* skip_leak = getenv("MON_NO_LEAK"); int mtonly = 0; int repeat = 1; int core = -1;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&] { return argv[++i]; };
		if (a == "--props") props = nx(); else if (a == "--seed") seed = strtoull(nx(), 0, 0); else if (a == "--shard") shard = atoi(nx());
		else if (a == "--nshards") nshards = atoi(nx()); else if (a == "--time") tlimit = atof(nx()); else if (a == "--max") maxc = strtoull(nx(), 0, 0);
		else if (a == "--min") minc = strtoull(nx(), 0, 0); else if (a == "--repeat") repeat = atoi(nx());
		else if (a == "--out") outp = nx(); else if (a == "--family") only = nx(); else if (a == "--case") only_seed = strtoull(nx(), 0, 0);
		else if (a == "--list") list = true; else if (a == "--mt") mtonly = 1; else if (a == "--core") core = atoi(nx()); else if (a == "--mean") vs::set_strategy(atoi(nx()));
		else { fprintf(stderr, "bad arg %s\n", argv[i]); return 2; }
	}
	vs::process_init();
	if (strcmp(props, "all")) g_focus = "," + std::string(props) + ",";
	auto& F = fams();
	std::sort(F.begin(), F.end(), [](const Family& a, const Family& b) { return strcmp(a.name, b.name) < 0; });
	std::vector<Family*> sel; std::vector<int> wheel;
	for (auto& f : F) {
		bool ok = false;
		if (only) ok = !strcmp(only, f.name);
		else if (!strcmp(props, "all")) ok = true;
		else { std::string p = "," + std::string(f.props) + ","; std::string q = props; size_t b = 0;
			while (b <= q.size()) { size_t e = q.find(',', b); if (e == std::string::npos) e = q.size(); if (p.find("," + q.substr(b, e - b) + ",") != std::string::npos) ok = true; b = e + 1; } }
		if (mtonly && !f.mt) ok = false;
		if (ok) { sel.push_back(&f); for (int k = 0; k < f.weight; ++k) wheel.push_back((int)sel.size() - 1); }
	}
	if (list) { for (auto* f : sel) printf("%s %s mt=%d w=%d\n", f->name, f->props, f->mt, f->weight); return 0; }
	if (sel.empty()) { fprintf(stderr, "no families\n"); return 2; }
	if (only_seed) { for (int k = 0; k < repeat; ++k) { int64_t b = run_case(*sel[0], only_seed); printf("case done, balance %lld, events %llu\n", (long long)b, (unsigned long long)vs::stats().events); } return 0; }
	{ // one core per shard: only one managed thread runs at a time anyway
		cpu_set_t all; if (sched_getaffinity(0, sizeof all, &all) == 0) { int n = CPU_COUNT(&all), k = (core >= 0 ? core : shard) % (n ? n : 1); for (int c = 0; c < CPU_SETSIZE; ++c) if (CPU_ISSET(c, &all) && k-- == 0) { cpu_set_t one; CPU_ZERO(&one); CPU_SET(c, &one); sched_setaffinity(0, sizeof one, &one); break; } }
	}
	vs::watchdog();
	std::unordered_set<uint64_t> hist, sched; uint64_t bytrivial = 0;
	double t0 = secs(); uint64_t done = 0, leakchk = 0; std::map<std::string, uint64_t> maxbal;
	std::string samples; double slow_s = 0;
	for (uint64_t it = (uint64_t)shard; done < maxc; it += (uint64_t)nshards) {
		if (done >= minc && secs() - t0 > tlimit) break;
		Family& f = *sel[(size_t)wheel[(it * 7919u + (it / wheel.size())) % wheel.size()]];
		bool sl = slow(f); double c0 = sl ? secs() : 0; if (sl && sel.size() > 1 && slow_s > 0.15 * (c0 - t0) + 0.5) continue;
		uint64_t cs = mixh(mixh(seed, shash(f.name)), it) & 0x7fffffffffffffffull; if (!cs) cs = 1;
		int64_t b = run_case(f, cs);
		++f.ran; ++done; if (sl) slow_s += secs() - c0;
		uint64_t hh = mixh(vs::hash_history(), shash(f.name)), hs = mixh(vs::hash_schedule(), hh);
		if (vs::log_size() >= 2) { hist.insert(hh); sched.insert(hs); } else ++bytrivial;
		if (done == 2 || (done == 1 && maxc == 1)) {
			char t[200]; snprintf(t, sizeof t, "%s case %llu, %zu events:", f.name, (unsigned long long)cs, vs::log_size()); samples = t;
			for (size_t i = 0; i < vs::log_size() && i < 24; ++i) { auto& e = vs::log_at(i); const char* k = vs::kind_name ? vs::kind_name(e.kind) : "?"; snprintf(t, sizeof t, " T%d:%s(%lld,%lld)@%lldus", e.thr, k, (long long)e.a, (long long)e.b, (long long)((e.t - 1700000000000000000ll) / 1000)); samples += t; }
		}
		if (b > 0 && !skip_leak) {   // blocks left over: growth of a container, or a leak: the latter repeats
			++leakchk;
			int64_t b2 = run_case(f, cs), b3 = b2 > 0 ? run_case(f, cs) : 0, b4 = b3 > 0 ? run_case(f, cs) : 0;
			if (b2 > 0 && b3 > 0 && b4 > 0) vs::fail("leak: %lld heap blocks are never released", (long long)b4);
		}
	}
	auto& s = vs::stats();
	if (outp) {
		FILE* o = fopen(outp, "w");
		fprintf(o, "{\"cases\":%llu,\"points\":%llu,\"switches\":%llu,\"forced\":%llu,\"events\":%llu,\"advances\":%llu,\"edges_hit\":%zu,\"edges_total\":%zu,\"leak_rechecks\":%llu,\"trivial\":%llu,\"wall\":%.2f,\"samples\":\"%s\",\"families\":{",
			(unsigned long long)done, (unsigned long long)s.points, (unsigned long long)s.switches, (unsigned long long)s.forced, (unsigned long long)s.events, (unsigned long long)s.advances, vs::edges_hit(), vs::edges_total(), (unsigned long long)leakchk, (unsigned long long)bytrivial, secs() - t0, samples.c_str());
		bool first = true;
		for (auto* f : sel) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", f->name, (unsigned long long)f->ran); first = false; }
		fprintf(o, "},\"cover\":{");
		first = true; for (int i = 0; i < g_ncov.load(); ++i) { fprintf(o, "%s\"%s\":%llu", first ? "" : ",", g_cov[i].s.load(), (unsigned long long)g_cov[i].n.load()); first = false; }
		fprintf(o, "}}\n"); fclose(o);
		std::string hp = std::string(outp) + ".hist"; o = fopen(hp.c_str(), "wb");
		for (auto h : hist) fwrite(&h, 8, 1, o);
		fclose(o);
		hp = std::string(outp) + ".sched"; o = fopen(hp.c_str(), "wb");
		for (auto h : sched) fwrite(&h, 8, 1, o);
		fclose(o);
	}
	printf("done cases=%llu hist=%zu sched=%zu switches=%llu held=%llu edges=%zu/%zu wall=%.1f\n", (unsigned long long)done, hist.size(), sched.size(), (unsigned long long)s.switches, (unsigned long long)s.hot, vs::edges_hit(), vs::edges_total(), secs() - t0);
	fflush(stdout);
	_exit(0);
}
