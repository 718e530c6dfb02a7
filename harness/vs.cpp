// See vs.h.  No standard library containers here (this file is not instrumented, and a template
// instantiated here could replace an instrumented one at link time).
#include "vs.h"
#include <pthread.h>
#include <sched.h>
#include <errno.h>
#include <linux/futex.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>

extern "C" {
int __real_sched_yield(void);
int __real_nanosleep(const timespec*, timespec*);
int __real_clock_nanosleep(clockid_t, int, const timespec*, timespec*);
int __real_pthread_mutex_lock(pthread_mutex_t*);
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*)) __attribute__((weak));
}

namespace vs {
enum St { FREE = 0, RUNNABLE, DONE, WAITQ, WAITJ };
struct Thr { int turn; St st; Kind kind; int idle; uint32_t weight; int64_t stall; pthread_t pt; void (*fn)(void*); void* arg; };
static const int MAXT = 16;
static Thr T[MAXT];
static int nthr = 0, cur = 0;
static bool mt = false;                   // managed mode: more threads than main
static bool active = false;
static int64_t countdown = 0, given = 0;
static uint64_t steps = 0, budget = 0;
static int nopre = 0;
static int mean = 50;
static uint64_t rs = 1;
static int64_t vnow = 0;
static int64_t dl[4096]; static int ndl = 0;
static uint32_t jit_pm = 0; static int64_t jit_max = 0;
static Ev* logbuf = nullptr; static const size_t LOGCAP = 1 << 17; static size_t nlog = 0;
static uint64_t hsched = 0;
static const char* g_family = ""; static uint64_t g_seed = 0;
static Stats st_;
static __thread int tid __attribute__((tls_model("initial-exec"))) = -1;
static uint32_t nguards = 0, nhit = 0;
static bool (*g_pred)(void*) = nullptr; static void* g_predarg = nullptr;
static volatile int64_t balance = 0; static bool counting = false;
static bool failed = false;
const char* (*kind_name)(uint32_t) = nullptr;
static int want_mean = 0;
// a place of preference: in some cases threads are held back at one place of the code (and those next to it) whenever they come by
static uint16_t seen[1 << 20]; static uint16_t epoch = 0; static uint32_t hot_k = 0, distinct = 0, hot_lo = 0, hot_n = 0, hot_left = 0; static bool collecting = false; static uint32_t coll[4096], ncoll = 0;

Stats& stats() { return st_; }
size_t edges_hit() { return nhit; }
size_t edges_total() { return nguards; }
int64_t alloc_balance() { return balance; }
void set_strategy(int m) { want_mean = m; }
void mean_interval(int m) { mean = m; }

static uint64_t rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs * 0x2545F4914F6CDD1Dull; }
uint64_t srand64() { return rnd(); }
static uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 33; return h; }

static void out(const char* s) { size_t n = strlen(s); while (n) { ssize_t w = write(1, s, n); if (w <= 0) return; s += w; n -= (size_t)w; } }
static void outf(const char* fmt, ...) { char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); out(b); }

static void report_case(const char* why)
{
	outf("\nFAIL family=%s seed=%llu why=%s\n", g_family, (unsigned long long)g_seed, why);
	size_t from = nlog > 60 ? nlog - 60 : 0;
	for (size_t i = from; i < nlog; ++i) {
		const char* k = kind_name ? kind_name(logbuf[i].kind) : "";
		outf("  log[%zu] thr=%d %s(%u) a=%lld b=%lld t=%+lld\n", i, logbuf[i].thr, k ? k : "", logbuf[i].kind,
			(long long)logbuf[i].a, (long long)logbuf[i].b, (long long)(logbuf[i].t - 1700000000000000000ll));
	}
}
void fail(const char* fmt, ...)
{
	active = false; failed = true;
	char b[700]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	report_case(b);
	_exit(77);
}
static void on_death() { if (!failed) { failed = true; active = false; report_case("sanitizer"); } }
static void on_abrt(int) { if (!failed) { failed = true; active = false; report_case("abort"); } _exit(77); }
static void hook_m(const volatile void*, size_t) { if (counting) __atomic_fetch_add(&balance, 1, __ATOMIC_RELAXED); }
static void hook_f(const volatile void* p) { if (counting && p) __atomic_fetch_sub(&balance, 1, __ATOMIC_RELAXED); }

void process_init()
{
	logbuf = (Ev*)calloc(LOGCAP, sizeof(Ev));
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
	if (__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abrt; sigaction(SIGABRT, &sa, nullptr);
	tid = 0;
}

static uint64_t wd_points = 0; static double wd_cpu = 0; static int wd_same = 0;
static double cpu_s() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
static void on_alarm(int)
{
	double c = cpu_s();
	if (st_.cases == wd_points && c - wd_cpu < 0.05) { if (++wd_same >= 3 && active && !failed) { failed = true; active = false; report_case("hang: blocked for good"); _exit(77); } }
	else wd_same = 0;
	wd_points = st_.cases; wd_cpu = c;
	alarm(10);
}
void watchdog()
{
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART; sigaction(SIGALRM, &sa, nullptr);
	alarm(10);
}
static void rearm()
{
	if (!mt) { given = (int64_t)(budget - steps); if (given < 1) given = 1; countdown = given; return; }
	uint64_t r = rnd();
	int64_t d;
	switch (r & 7) {                          // a mixture of scales around the mean
	case 0: d = 1 + (int64_t)(rnd() % 4); break;
	case 1: d = 1 + (int64_t)(rnd() % (uint64_t)(mean * 8)); break;
	default: d = 1 + (int64_t)(rnd() % (uint64_t)(mean * 2)); break;
	}
	given = d; countdown = d;
}

void more_steps(uint64_t f) { budget *= f; }
void case_begin(const char* family, uint64_t seed, uint64_t step_budget)
{
	g_family = family; g_seed = seed;
	rs = mix(seed, 0x1234567) | 1; for (int i = 0; i < 4; ++i) rnd();
	nlog = 0; steps = 0; budget = step_budget; nopre = 0; hsched = 0; ndl = 0; jit_pm = 0; jit_max = 0;
	vnow = 1700000000000000000ll;
	for (int i = 0; i < MAXT; ++i) T[i].st = FREE;
	nthr = 1; cur = 0; mt = false;
	T[0].st = RUNNABLE; T[0].kind = EXTERNAL; T[0].turn = 0; T[0].weight = 4; T[0].stall = 0; T[0].idle = 0;
	static const int means[] = {4, 8, 15, 30, 30, 60, 60, 120, 250, 1000};
	mean = want_mean ? want_mean : means[rnd() % 10];
	if (++epoch == 0) { memset(seen, 0, sizeof seen); epoch = 1; }
	collecting = false; distinct = hot_n = 0; hot_left = 1500; hot_k = rnd() % 3 ? 0 : 1 + (uint32_t)(rnd() % (rnd() & 1 ? 300 : 1500));
	g_pred = nullptr;
	active = true; balance = 0; counting = true;
	rearm();
	++st_.cases;
}
void case_end()
{
	counting = false;
	if (!mt) steps += (uint64_t)(given - countdown);
	st_.points += steps; active = false; mt = false; nthr = 1;
	st_.events += nlog;
}
uint64_t hash_schedule() { return hsched; }
uint64_t hash_history() { uint64_t h = 7; for (size_t i = 0; i < nlog; ++i) { h = mix(h, logbuf[i].kind); h = mix(h, (uint64_t)logbuf[i].a); h = mix(h, (uint64_t)logbuf[i].b); } return h; }

bool managed() { return mt; }
int self() { return tid; }
NoPreempt::NoPreempt() { ++nopre; }
NoPreempt::~NoPreempt() { --nopre; }

int64_t now() { return vnow; }
void set_now(int64_t t) { vnow = t; }
void add_deadline(int64_t t) { if (ndl < 4096) dl[ndl++] = t; }
void time_jitter(uint32_t pm, int64_t mx) { jit_pm = pm; jit_max = mx; }

void log(uint32_t kind, int64_t a, int64_t b)
{
	if (nlog >= LOGCAP) fail("harness: log full");
	Ev& e = logbuf[nlog++];
	e.kind = kind; e.thr = tid; e.a = a; e.b = b; e.t = vnow;
}
size_t log_size() { return nlog; }
const Ev& log_at(size_t i) { return logbuf[i]; }

// ---- turn passing
static void fwait(int* w) { while (!__atomic_load_n(w, __ATOMIC_ACQUIRE)) syscall(SYS_futex, w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); __atomic_store_n(w, 0, __ATOMIC_RELAXED); }
static void fwake(int* w) { __atomic_store_n(w, 1, __ATOMIC_RELEASE); syscall(SYS_futex, w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int qphase;                          // every thread must be idle twice over: the last one may have made work for the first
static bool quiet()
{
	for (int i = 1; i < nthr; ++i) {
		if (T[i].kind == SCHEDULER && T[i].st != DONE && T[i].idle < 3) return false;
		if (T[i].kind == EXTERNAL && T[i].st != DONE) return false;
	}
	return true;
}
static bool advance()
{
	int64_t best = INT64_MAX;
	for (int i = 0; i < ndl; ++i) if (dl[i] > vnow && dl[i] < best) best = dl[i];
	if (best == INT64_MAX) return false;
	int j = 0; for (int i = 0; i < ndl; ++i) if (dl[i] > best) dl[j++] = dl[i];
	ndl = j;
	vnow = best; ++st_.advances;
	for (int i = 1; i < nthr; ++i) T[i].idle = 0;
	return true;
}
static bool main_ready()
{
	if (T[0].st == RUNNABLE) return true;
	if (T[0].st == WAITJ) { for (int i = 1; i < nthr; ++i) if (T[i].st != DONE) return false; return true; }
	if (T[0].st == WAITQ) {
		if (g_pred) { bool a = active; active = false; bool r = g_pred(g_predarg); active = a; if (r) return true; }
		if (!quiet()) return false;
		if (qphase == 0) { qphase = 1; for (int i = 1; i < nthr; ++i) T[i].idle = 0; return false; }
		if (advance()) { qphase = 0; return false; }
		return true;
	}
	return false;
}
static int pick(bool not_me)
{
	uint32_t w[MAXT]; uint32_t sum = 0; 
	for (int i = 0; i < nthr; ++i) {
		bool ok = i == 0 ? main_ready() : T[i].st == RUNNABLE;
		if (ok && not_me && i == cur) ok = false;
		w[i] = ok ? T[i].weight : 0;
		if (ok && T[i].stall > 0) { --T[i].stall; w[i] = 0; if (T[i].stall == 0) {} }
		if (ok && T[i].idle >= 3) w[i] = 1;
		sum += w[i];
	}
	if (sum == 0) {                            // all stalled, or only me
		for (int i = 0; i < nthr; ++i) {
			bool ok = i == 0 ? main_ready() : T[i].st == RUNNABLE;
			if (ok && not_me && i == cur) ok = false;
			w[i] = ok ? 1 : 0; T[i].stall = 0; sum += w[i];
		}
		if (sum == 0) return -1;
	}
	uint32_t r = (uint32_t)(rnd() % sum);
	for (int i = 0; i < nthr; ++i) { if (r < w[i]) return i; r -= w[i]; }
	return -1;
}
static void account(uint64_t extra)
{
	steps += (uint64_t)(given - countdown) + extra; given = countdown;
	if (steps > budget) fail("hang: no progress within %llu steps (thread %d)", (unsigned long long)budget, tid);
}
static void go_to(int n, bool done)
{
	int me = tid;
	hsched = mix(hsched, (uint64_t)n); ++st_.switches;
	rearm();
	cur = n;
	if (n == 0 && T[0].st != RUNNABLE) T[0].st = RUNNABLE;
	fwake(&T[n].turn);
	if (!done) fwait(&T[me].turn);
}
static void switch_out(bool forced)
{
	account(forced ? 20 : 0);
	if (jit_pm && rnd() % 1000 < jit_pm) {
		int64_t was = vnow; vnow += 1 + (int64_t)(rnd() % (uint64_t)jit_max);
		for (int i = 0; i < ndl; ++i) if (dl[i] > was && dl[i] <= vnow) { qphase = 0; for (int k = 1; k < nthr; ++k) T[k].idle = 0; break; }
	}
	if (nopre) { given = countdown = 1; return; }
	if (rnd() % 64 == 0) T[cur].stall = (int64_t)(rnd() % 40);
	int n = pick(forced);
	if (n < 0 || n == cur) { rearm(); return; }
	if (forced) ++st_.forced;
	go_to(n, false);
}
static void slow()
{
	if (!mt) { account(0); rearm(); return; }
	switch_out(false);
}
static void aim(uint32_t i) { uint32_t b = (uint32_t)(rnd() % 3); hot_lo = i > b ? i - b : i; hot_n = 1 + b + (uint32_t)(rnd() % 3); }
// between aim_begin and aim_end the case runs the code of interest once, alone: one place of it becomes the place of preference
void aim_begin() { if (++epoch == 0) { memset(seen, 0, sizeof seen); epoch = 1; } collecting = true; ncoll = 0; hot_n = 0; hot_k = ~0u; }
void aim_end(int percent) { collecting = false; hot_k = 0; if (ncoll && (int)(rnd() % 100) < percent) { hot_k = ~0u; aim(coll[rnd() % ncoll]); hot_left = 3000; } }
static void hot(uint32_t i)
{
	if (collecting) { if (seen[i] != epoch && ncoll < 4096) { seen[i] = epoch; coll[ncoll++] = i; } return; }
	if (seen[i] != epoch) { seen[i] = epoch; if (++distinct == hot_k) aim(i); }
	if (i - hot_lo >= hot_n || !hot_left || !(rnd() & 1)) return;
	--hot_left; ++st_.hot; T[cur].stall = (int64_t)(rnd() % 12); switch_out(true);
}
static inline void point()
{
	if (!active || tid < 0) return;
	if (--countdown > 0) return;
	slow();
}
void yield() { if (!active || tid < 0) { __real_sched_yield(); return; } if (!mt) { account(20); rearm(); return; } switch_out(true); }
void idle() { if (mt) { T[tid].idle++; } yield(); }
void busy() { qphase = 0; if (mt) for (int i = 1; i < nthr; ++i) T[i].idle = 0; }

static void* entry(void* p)
{
	int me = (int)(intptr_t)p;
	tid = me;
	fwait(&T[me].turn);
	T[me].fn(T[me].arg);
	account(0);
	T[me].st = DONE;
	for (int i = 1; i < nthr; ++i) T[i].idle = 0;
	int n = pick(true);
	tid = -1;
	if (n < 0) fail("harness: nobody to run");
	hsched = mix(hsched, (uint64_t)n + 100); rearm(); cur = n;
	if (n == 0) T[0].st = RUNNABLE;
	fwake(&T[n].turn);
	return nullptr;
}
int spawn(void (*fn)(void*), void* arg, Kind kind)
{
	if (nthr >= MAXT) fail("harness: too many threads");
	int id = nthr;
	T[id].turn = 0; T[id].kind = kind; T[id].idle = 0; T[id].fn = fn; T[id].arg = arg;
	static const uint32_t ws[] = {4, 4, 4, 8, 1, 16};
	T[id].weight = ws[rnd() % 6]; T[id].stall = 0;
	if (rnd() % 4 == 0) T[id].stall = (int64_t)(rnd() % 60);
	T[id].st = RUNNABLE;
	bool a = active; active = false;
	if (pthread_create(&T[id].pt, nullptr, entry, (void*)(intptr_t)id) != 0) fail("harness: pthread_create");
	active = a;
	nthr = id + 1;
	if (!mt) { account(0); mt = true; rearm(); }
	return id;
}
static void main_wait(St s)
{
	account(0);
	T[0].st = s;
	if (main_ready()) { T[0].st = RUNNABLE; return; }
	int n = pick(true);
	if (n < 0) { T[0].st = RUNNABLE; return; }
	if (n == 0) { T[0].st = RUNNABLE; return; }
	go_to(n, false);
}
void wait_quiet() { qphase = 0; g_pred = nullptr; if (nthr > 1) { for (int i = 1; i < nthr; ++i) T[i].idle = 0; main_wait(WAITQ); } }
bool wait_quiet_or(bool (*pred)(void*), void* arg)
{
	qphase = 0; g_pred = pred; g_predarg = arg; for (int i = 1; i < nthr; ++i) T[i].idle = 0; main_wait(WAITQ); g_pred = nullptr;
	{ bool a = active; active = false; bool r = pred(arg); active = a; return r; }
}
void join_all()
{
	if (nthr <= 1) return;
	main_wait(WAITJ);
	bool a = active; active = false;
	for (int i = 1; i < nthr; ++i) pthread_join(T[i].pt, nullptr);
	active = a;
	steps += (uint64_t)(given - countdown);
	mt = false; nthr = 1; cur = 0; rearm();
}
} // namespace vs

using namespace vs;
extern "C" {
static unsigned char g_hit[1 << 20];
void __sanitizer_cov_trace_pc_guard_init(uint32_t* b, uint32_t* e)
{
	if (b == e || *b) return;
	for (uint32_t* p = b; p < e; ++p) *p = nguards + 1 < (1u << 20) ? ++nguards : 0;
}
void __sanitizer_cov_trace_pc_guard(uint32_t* g)
{
	uint32_t i = *g;
	if (!g_hit[i]) { g_hit[i] = 1; ++nhit; }
	if (hot_k && (mt || collecting) && active && tid >= 0) hot(i);
	point();
}
void __sanitizer_cov_load1(uint8_t*) { point(); }
void __sanitizer_cov_load2(uint16_t*) { point(); }
void __sanitizer_cov_load4(uint32_t*) { point(); }
void __sanitizer_cov_load8(uint64_t*) { point(); }
void __sanitizer_cov_load16(void*) { point(); }
void __sanitizer_cov_store1(uint8_t*) { point(); }
void __sanitizer_cov_store2(uint16_t*) { point(); }
void __sanitizer_cov_store4(uint32_t*) { point(); }
void __sanitizer_cov_store8(uint64_t*) { point(); }
void __sanitizer_cov_store16(void*) { point(); }

int __wrap_sched_yield(void)
{
	if (!active || tid < 0) return __real_sched_yield();
	if (mt && (rnd() & 1)) T[cur].stall = (int64_t)(rnd() % 16);      // spinning: let the others get on
	vs::yield();
	return 0;
}
int __wrap_nanosleep(const timespec* a, timespec* b)
{
	if (!active || tid < 0) return __real_nanosleep(a, b);
	vs::yield();
	return 0;
}
int __wrap_clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b)
{
	if (!active || tid < 0) return __real_clock_nanosleep(c, f, a, b);
	vs::yield();
	return 0;
}
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!active || tid < 0) return __real_pthread_mutex_lock(m);
	for (;;) {
		int r = pthread_mutex_trylock(m);
		if (r != EBUSY) return r;
		vs::yield();
	}
}
// std::chrono::system_clock::now(): one 64-bit duration, returned in a register
int64_t __wrap__ZNSt6chrono3_V212system_clock3nowEv(void) { return vnow; }
}
