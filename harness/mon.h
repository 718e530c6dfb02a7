// Common part of the monitors: workload randomness, families of cases, tracked objects, worlds of
// scheduler threads and plain threads.
#pragma once
#include "librf/librf.h"
#include "vs.h"
#include <atomic>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <string.h>

namespace mon {
struct Rng {
	uint64_t s = 1;
	void seed(uint64_t x) { s = (x ^ 0x9E3779B97F4A7C15ull) * 0xff51afd7ed558ccdull | 1; for (int i = 0; i < 4; ++i) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	int below(int n) { return n <= 0 ? 0 : (int)((next() >> 11) % (uint64_t)n); }
	int range(int a, int b) { return a + below(b - a + 1); }
	bool chance(int percent) { return below(100) < percent; }
	template<class T> T& pick(std::vector<T>& v) { return v[(size_t)below((int)v.size())]; }
};
extern Rng R;                    // used by the thread that sets a case up; other threads make their own
extern bool big;                 // a rare case of large dimensions: lengths, counts and depths which the usual ones never reach
inline int upto(int lo, int hi, int top) { return big ? R.range(lo, top) : R.range(lo, hi); }

struct Family { const char* props; const char* name; void (*fn)(); int weight; bool mt; uint64_t ran; };
void add_family(const char* props, const char* name, void (*fn)(), int weight, bool mt);
struct Reg { Reg(const char* p, const char* n, void (*f)(), int w, bool mt) { add_family(p, n, f, w, mt); } };
// props: comma separated ids; mt: uses several threads
#define FAMILY(props, name, weight, mt) static void name(); static ::mon::Reg reg_##name(props, #name, &name, weight, mt); static void name()

bool focus(const char* prop);    // is this property being decided in this run?
// an oracle of one property (or of several: "C01,C02"); others sharing the workload do not judge by it
#define REQ(prop, c, ...) do { if (!(c) && ::mon::focus(prop)) ::vs::fail(__VA_ARGS__); } while (0)
#define REQUIRE(c, ...) do { if (!(c)) ::vs::fail(__VA_ARGS__); } while (0)

void cover(const char* what);    // counts situations reached, for the evidence

// a field the monitors share between threads without giving the library any ordering for free
template<class T> struct Rx {
	std::atomic<T> v;
	Rx(T x = T()) : v(x) {}
	Rx(const Rx& o) : v(o.v.load(std::memory_order_relaxed)) {}
	Rx& operator=(T x) { v.store(x, std::memory_order_relaxed); return *this; }
	Rx& operator=(const Rx& o) { v.store(o.v.load(std::memory_order_relaxed), std::memory_order_relaxed); return *this; }
	operator T() const { return v.load(std::memory_order_relaxed); }
	T add(T x) { return v.fetch_add(x, std::memory_order_relaxed); }
};

// ---- an object whose life is watched (heap cell: sanitizers see misuse; counters: leaks)
extern std::atomic<long> g_live;
struct Obj {
	struct Cell { long id; uint64_t magic; };
	Cell* c;
	static constexpr uint64_t LIVE = 0x11feed5afe0b7ec7ull;
	void make(long id) { c = new Cell{ id, LIVE }; g_live.fetch_add(1, std::memory_order_relaxed); }
	Obj() { make(-1); }
	explicit Obj(long id) { make(id); }
	Obj(const Obj& o) { make(o.get()); }
	Obj(Obj&& o) noexcept { make(o.get()); o.set(-2); }
	Obj& operator=(const Obj& o) { set(o.get()); return *this; }
	Obj& operator=(Obj&& o) noexcept { long v = o.get(); if (this != &o) o.set(-2); set(v); return *this; }
	~Obj() { check(); c->magic = 0; delete c; c = nullptr; g_live.fetch_sub(1, std::memory_order_relaxed); }
	void check() const { if (!c || c->magic != LIVE) ::vs::fail("object used outside its life"); }
	long get() const { check(); return c->id; }
	void set(long v) { check(); c->id = v; }
};
// move only
struct MObj {
	Obj o;
	MObj() {}
	explicit MObj(long id) : o(id) {}
	MObj(MObj&&) = default; MObj& operator=(MObj&&) = default;
	MObj(const MObj&) = delete; MObj& operator=(const MObj&) = delete;
	long get() const { return o.get(); }
};
// no default constructor
struct NObj {
	Obj o;
	NObj() = delete;
	explicit NObj(long id) : o(id) {}
	long get() const { return o.get(); }
};
template<class T> struct Mk { static T make(long v) { return T(v); } static long get(const T& t) { return t.get(); } };
template<> struct Mk<long> { static long make(long v) { return v; } static long get(const long& t) { return t; } };
template<> struct Mk<int> { static int make(long v) { return (int)v; } static long get(const int& t) { return t; } };
template<> struct Mk<std::string> {
	static std::string make(long v) { return std::string(24, 'x') + std::to_string(v); }
	static long get(const std::string& s) { return s.size() < 24 ? -2 : atol(s.c_str() + 24); } };
template<class X> struct Mk<std::unique_ptr<X>> {
	static std::unique_ptr<X> make(long v) { return std::make_unique<X>(v); }
	static long get(const std::unique_ptr<X>& p) { return p ? Mk<X>::get(*p) : -2; } };

// a value that is handed over as an lvalue must stay what it is
template<class T> struct Kept { T t; long v; const char* who; Kept(long x, const char* w) : t(Mk<T>::make(x)), v(Mk<T>::get(t)), who(w) {} Kept(const Kept&) = delete; ~Kept() { if (Mk<T>::get(t) != v) vs::fail("%s took the value out of an lvalue", who); } };

// ---- several schedulers on threads of their own, and plain threads
void drop_exceptions();
struct World {
	static constexpr int MAX = 6;
	int n;
	std::atomic<librf::scheduler_t*> sch[MAX];
	std::atomic<int> ready{ 0 }, stop{ 0 }, gone{ 0 };
	std::function<void(int)> init;             // on each scheduler thread, when all schedulers exist
	std::vector<std::function<void()>> ext;
	std::function<void(int)> after_batch;      // on each scheduler thread, after each batch
	std::atomic<int> ext_done{ 0 };
	struct Slot { World* w; int i; };
	Slot slots[16];
	explicit World(int nsch) : n(nsch) { for (auto& s : sch) s.store(nullptr, std::memory_order_relaxed); }
	librf::scheduler_t* s(int i) { return sch[i].load(std::memory_order_acquire); }
	static void sched_body(void* p);
	static void ext_body(void* p);
	void start();
	void spawn_ext(std::function<void()> f);   // after start
	void quiet() { vs::wait_quiet(); }
	void finish();
	~World() { if (!finished) finish(); }
	bool finished = false;
	std::deque<std::function<void()>> later;
};
inline librf::scheduler_t* G() { return librf::this_scheduler(); }
// runs the single threaded scheduler until it has nothing ready
inline void settle(librf::scheduler_t* s = nullptr) { if (!s) s = G(); while (s->run_one_batch()) {} }
struct OwnScheduler : librf::scheduler_t { OwnScheduler() {} };

inline std::chrono::system_clock::time_point tp(int64_t ns) { return std::chrono::system_clock::time_point(std::chrono::duration_cast<std::chrono::system_clock::duration>(std::chrono::nanoseconds(ns))); }
inline int64_t ns_of(std::chrono::system_clock::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
inline std::chrono::nanoseconds dns(int64_t n) { return std::chrono::nanoseconds(n); }
constexpr int64_t MS = 1000000;
extern int64_t U;               // the case's unit of time: mostly a millisecond, in some cases anything from a nanosecond to a month
// durations in the units users write: the kind is drawn first and rounds d to what that unit can say exactly
inline int dur_kind(int64_t& d)
{
	static const int64_t q[] = { 1, 1, 1000, MS, 1000 * MS, 60000 * MS, 3600000 * MS, 1953125, 1953125, 1 }; int k = R.chance(60) ? 0 : R.below(10);
	if (k >= 2 && (d < 0 ? -d : d) < q[k]) k = 0; if ((k == 7 || k == 8) && (d < 0 ? -d : d) >> 52) k = 0;      // what a double holds exactly
	d = d / q[k] * q[k]; return k;
}
template<class F> auto as_dur(int k, int64_t d, F f)
{
	using namespace std::chrono;
	switch (k) {
	case 1: return f(duration<int64_t, std::ratio<1, 1000000000>>(d)); case 2: return f(microseconds(d / 1000)); case 3: return f(milliseconds(d / MS)); case 4: return f(seconds(d / (1000 * MS)));
	case 5: return f(minutes(d / (60000 * MS))); case 6: return f(hours(d / (3600000 * MS))); case 7: return f(duration<double>((double)(d / 1953125) / 512.0)); case 8: return f(duration<double, std::milli>((double)(d / 1953125) * 1.953125));
	case 9: return f(duration<long double, std::nano>((long double)d)); default: return f(nanoseconds(d)); }
}
template<class F> auto as_tp(int k, int64_t t, F f)      // and points in time, of those units whose origin fits
{
	using namespace std::chrono;
	if (k >= 2 && k <= 4) { if (k == 2 && t % 1000 == 0) return f(time_point<system_clock, microseconds>(microseconds(t / 1000))); if (k == 3 && t % MS == 0) return f(time_point<system_clock, milliseconds>(milliseconds(t / MS))); if (k == 4 && t % (1000 * MS) == 0) return f(time_point<system_clock, seconds>(seconds(t / (1000 * MS)))); }
	return f(time_point<system_clock, nanoseconds>(nanoseconds(t)));
}
inline int64_t below_ns(int64_t n) { return (int64_t)(R.next() % (uint64_t)n); }
} // namespace mon
using namespace librf;
using mon::R;
