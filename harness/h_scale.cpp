// Scale: the guarantees at lengths, counts and depths far beyond the usual ones (single threaded; thousands, rarely 2^16 and more).
#include "mon.h"
#include <algorithm>
#include <optional>
using namespace mon;

namespace {
enum { SIZE = 1, STEP, PHASE, AT };
const char* kn(uint32_t k) { static const char* n[] = {"?", "SIZE", "STEP", "PHASE", "AT"}; return k < 5 ? n[k] : "?"; }
int scale(int top)
{
	static const int edge[] = { 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097 };
	static const int far[] = { 8191, 8192, 8193, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000 };
	int q = R.below(100), n;
	if (q < 60) n = R.range(1, 300); else if (q < 85) n = edge[R.below((int)(sizeof edge / sizeof *edge))]; else if (q < 97) n = R.range(300, 3000); else n = far[R.below((int)(sizeof far / sizeof *far))];
	if (n > top) n = R.range(top / 2, top);
	vs::kind_name = kn; vs::log(SIZE, n); vs::log(SIZE, R.below(1 << 30)); cover(n < 300 ? "size < 300" : n < 5000 ? "size 300..4999" : n < 65535 ? "size >= 5000" : "size >= 65535"); return n;
}
std::vector<int> shuffled(int n) { std::vector<int> v((size_t)n); for (int i = 0; i < n; ++i) v[(size_t)i] = i; for (int i = n - 1; i > 0; --i) std::swap(v[(size_t)i], v[(size_t)R.below(i + 1)]); return v; }
#define I64 int64_t
}

#if PART == 1
namespace {
template<class C> struct Ch { C ch; long wrote = 0, got = 0, bad = 0; std::vector<int> order; std::vector<char> res; explicit Ch(size_t n) : ch(n) {} };
template<class C, class T> future_t<> writer(Ch<C>* s, long a, long b) { for (; a < b; ++a) { co_await (s->ch << Mk<T>::make(a)); s->wrote++; } }
template<class C, class T> future_t<> reader(Ch<C>* s, long n) { for (; n > 0; --n) { T v = co_await s->ch.read(); if (Mk<T>::get(v) != s->got && !s->bad) { vs::log(STEP, s->got, Mk<T>::get(v)); s->bad = s->got + 1; } s->got++; } }
template<class C, class T> future_t<> one_reader(Ch<C>* s, int i) { T v = co_await s->ch; s->order.push_back(i); if (Mk<T>::get(v) != i && !s->bad) { vs::log(STEP, i, Mk<T>::get(v)); s->bad = i + 1; } }
template<class C, class T> future_t<> one_writer(Ch<C>* s, int i) { co_await s->ch.write(Mk<T>::make(i)); s->order.push_back(i); }
template<class T, class C> void chan(int top)
{
	int n = scale(top); Ch<C> s((size_t)n); auto* g = G(); int off = R.chance(50) ? R.below(n + 1) : 0, more = R.range(0, 40); long at = 0;
	REQ("C02", s.ch.capacity() == (size_t)n, "capacity() is %zu, not %d", s.ch.capacity(), n);
	if (off) { *g + writer<C, T>(&s, 0, off); *g + reader<C, T>(&s, off); settle(); REQ("C01,C02", s.wrote == off && s.got == off, "%ld of %d values written, %ld read", s.wrote, off, s.got); at = off; }   // moves the places round
	*g + writer<C, T>(&s, at, at + n + more); settle(); vs::log(PHASE, s.wrote);
	REQ("C02", s.wrote == at + n, "a channel of %d took %ld values before a writer waited", n, s.wrote - at);
	int k = R.range(0, n); *g + reader<C, T>(&s, k); settle(); REQ("C01,C02", s.got == at + k && !s.bad, "value %ld: another one was read in its place", s.bad - 1);
	REQ("C02", s.wrote == at + n + std::min(k, more), "%ld values written where %ld have room", s.wrote, at + n + std::min(k, more));
	*g + reader<C, T>(&s, n + more - k); settle(); REQ("C01,C02", !s.bad, "value %ld: another one was read in its place", s.bad - 1); REQ("C01,C02", s.got == at + n + more, "%ld of %ld values arrived", s.got, at + n + more);
	// many waiting readers, then as many values
	s.bad = 0; int m = scale(top / 2); for (int i = 0; i < m; ++i) *g + one_reader<C, T>(&s, i); settle(); REQ("C01,C02", s.order.empty(), "a reader got a value from an empty channel"); *g + writer<C, T>(&s, 0, m); settle();
	REQ("C01,C02", !s.bad, "reader %ld got another one's value", s.bad - 1); REQ("C01,C02", (int)s.order.size() == m, "%zu of %d waiting readers were served", s.order.size(), m);
	REQ("C02", std::is_sorted(s.order.begin(), s.order.end()), "waiting readers were served out of order");
	// a full channel and many waiting writers; the values of the waiting ones come after those inside, in order
	s.order.clear(); int q = scale(top / 2); for (int i = 0; i < n + q; ++i) *g + one_writer<C, T>(&s, i); settle(); REQ("C02", (int)s.order.size() == n, "a channel of %d let %zu writers through", n, s.order.size()); s.got = 0; s.bad = 0;
	*g + reader<C, T>(&s, n + q); settle(); REQ("C01,C02", !s.bad, "value %ld: another one was read in its place", s.bad - 1); REQ("C01,C02", s.got == n + q && (int)s.order.size() == n + q, "%ld values of %d, %zu writers ended", s.got, n + q, s.order.size());
	REQ("C02", std::is_sorted(s.order.begin(), s.order.end()), "waiting writers were let through out of order"); REQUIRE(g->empty(), "tasks are left");
}
template<class Q> void ring(int top)
{
	int n = scale(top); Q q((size_t)n); long in = 0, out = 0; int off = R.below(n + 1); auto push = [&] { Obj o(in); bool r = q.try_push(std::move(o)); if (r) ++in; return r; }; auto pop = [&] { Obj o(-3); bool r = q.try_pop(o); if (r) { REQUIRE(o.get() == out, "element %ld instead of %ld", o.get(), out); ++out; } return r; };
	for (int i = 0; i < off; ++i) { REQUIRE(push() && q.size() == 1, "a free place was refused"); REQUIRE(pop() && q.empty(), "an element was refused"); }
	for (int k = 0; k < 2; ++k) {
		while (push()) REQUIRE((long)q.size() == in - out && !q.empty(), "size() is %ld, not %ld", (long)q.size(), in - out);
		REQUIRE(in - out == n && q.full(), "a queue of %d took %ld", n, in - out); for (int i = R.below(n + 1); i > 0; --i) { REQUIRE(pop() && !q.full(), "an element was refused"); }
	}
	vs::log(STEP, in, out); while (pop()) {} REQUIRE(in == out && q.empty(), "%ld elements went in, %ld came out", in, out);
}
}
FAMILY("C01,C02,L01", scale_chan, 2, false)
{
	switch (R.below(6)) {
	case 0: chan<long, channel_t<long>>(70000); break;
	case 1: chan<Obj, channel_t<Obj>>(20000); break;
	case 2: chan<long, channel_t<long, false, false>>(70000); break;
	case 3: chan<Obj, channel_t<Obj, true, false>>(20000); break;
	case 4: chan<long, channel_t<long, true, true>>(70000); break;
	default: chan<Obj, channel_t<Obj, false, true>>(20000); break;
	}
}
FAMILY("D01,L01", scale_ring, 2, false) { if (R.chance(30)) ring<ring_queue<Obj, true, uint16_t>>(65534); else if (R.chance(50)) ring<ring_queue<Obj, false, uint32_t>>(70000); else ring<ring_queue<Obj, true, size_t>>(70000); }
#elif PART == 2
namespace {
struct Ev { event_t ev; std::vector<event_t> all; long ok = 0, out = 0; std::vector<int> order, late; };
future_t<> waits(Ev* s, int n) { for (; n > 0; --n) { bool r = co_await s->ev; if (r) s->ok++; else s->out++; } }
future_t<> wait1(Ev* s, int i) { bool r = co_await s->ev.wait(); (r ? s->order : s->late).push_back(i); }
future_t<> timed1(Ev* s, int i, int64_t t) { bool r = co_await s->ev.wait_until(tp(t)); (r ? s->order : s->late).push_back(i); }
future_t<> wait_all1(Ev* s, int64_t t) { bool r; if (t < 0) r = co_await event_t::wait_all(s->all); else r = co_await event_t::wait_all_for(dns(t - vs::now()), s->all); if (r) s->ok++; else s->out++; }
}
FAMILY("E01,L01", scale_event, 2, false)
{
	int n = scale(70000); Ev s; auto* g = G(); for (int i = 0; i < n; ++i) s.ev.signal(); int k = R.below(n + 1), more = R.range(1, 20);
	*g + waits(&s, k); settle(); REQUIRE(s.ok == k && g->empty(), "%ld of %d waits used up one of %d credits", s.ok, k, n);
	if (R.chance(20)) { s.ev.reset(); n = k; } *g + waits(&s, n - k + more); settle(); REQUIRE(s.ok == n && !s.out, "%ld waits ended, %d signals", s.ok, n); for (int i = 0; i < more; ++i) { s.ev.signal(); settle(); REQUIRE(s.ok == n + i + 1, "a signal did not wake a waiter"); }
	int m = scale(20000); for (int i = 0; i < m; ++i) *g + wait1(&s, i); settle(); REQUIRE(s.order.empty(), "a wait ended without signal"); int p = R.below(m + 1); if (R.chance(20)) { s.ev.signal_all(); p = m; } else for (int i = 0; i < p; ++i) s.ev.signal();
	settle(); REQUIRE((int)s.order.size() == p && s.late.empty(), "%zu waiters were woken by %d signals", s.order.size(), p); for (int i = 0; i < p; ++i) REQUIRE(s.order[(size_t)i] == i, "waiter %d was woken as number %d", s.order[(size_t)i], i);
	for (int i = p; i < m; ++i) s.ev.signal(); settle(); REQUIRE((int)s.order.size() == m && g->empty(), "waiters are left"); for (int i = 0; i < m; ++i) REQUIRE(s.order[(size_t)i] == i, "waiter %d was woken as number %d", s.order[(size_t)i], i);
	*g + waits(&s, 1); settle(); REQUIRE(s.ok == n + more, "a credit was left over"); s.ev.signal(); settle(); REQUIRE(g->empty(), "a task is left");
}
FAMILY("E02,L01", scale_event_timed, 2, false)
{
	int n = scale(20000); Ev s; auto* g = G(); int64_t t0 = vs::now(); auto ord = shuffled(n); int same = R.range(1, 4); auto dl = [&](int i) { return t0 + (ord[(size_t)i] / same + 1) * MS; };
	for (int i = 0; i < n; ++i) *g + timed1(&s, i, dl(i)); settle(); REQUIRE(s.order.empty() && s.late.empty(), "a timed wait ended at once");
	int64_t t = t0 + R.below(n / same + 2) * MS; vs::set_now(t); settle(); std::vector<char> late((size_t)n); int64_t last = 0;
	for (int i : s.late) { late[(size_t)i] = 1; REQUIRE(dl(i) <= t, "a wait timed out before its deadline"); REQUIRE(dl(i) >= last, "waits timed out in another order than their deadlines"); last = dl(i); }
	std::vector<int> rest; for (int i = 0; i < n; ++i) { if (!late[(size_t)i]) rest.push_back(i); if (dl(i) < t) REQUIRE(late[(size_t)i], "wait %d is still suspended after its deadline", i); }
	size_t p = rest.empty() ? 0 : (size_t)R.below((int)rest.size() + 1); for (size_t i = 0; i < p; ++i) s.ev.signal(); settle(); REQUIRE(s.order.size() == p, "%zu signals woke %zu", p, s.order.size()); for (size_t i = 0; i < p; ++i) REQUIRE(s.order[i] == rest[i], "signals wake in another order than the waits began");
	size_t had = s.late.size(); vs::set_now(t0 + (n + 2) * MS); settle(); REQUIRE(s.order.size() == p && s.late.size() == had + rest.size() - p && g->empty(), "%zu signalled, %zu timed out of %d", s.order.size(), s.late.size(), n);
	s.ev.signal(); *g + waits(&s, 1); settle(); REQUIRE(s.ok == 1, "a signal was taken by a wait that had timed out");
}
FAMILY("E03,L01", scale_all, 2, false)
{
	int n = scale(4000); Ev s; auto* g = G(); for (int i = 0; i < n; ++i) s.all.emplace_back(); bool timed = R.chance(50), out = timed && R.chance(40); int64_t dl = vs::now() + 5 * MS; auto o = shuffled(n); int pre = R.chance(30) ? R.below(n + 1) : 0;
	for (int i = 0; i < pre; ++i) s.all[(size_t)o[(size_t)i]].signal(); if (pre == n) out = false; *g + wait_all1(&s, timed ? dl : -1); settle(); REQUIRE(s.ok == (pre == n) && !s.out, "wait_all of %d events ended after %d signals", n, pre);
	int stop = out ? R.range(pre, n - 1) : n; for (int i = pre; i < stop; ++i) { REQUIRE(s.ok == 0, "wait_all of %d events ended after %d signals", n, i); s.all[(size_t)o[(size_t)i]].signal(); if (R.chance(3)) settle(); } settle();
	REQUIRE(s.ok == !out && !s.out, "wait_all of %d events after %d signals: %ld ended", n, stop, s.ok); vs::set_now(dl + MS); settle(); REQUIRE(s.out == out && s.ok == !out && g->empty(), "wait_all_until after its deadline: %ld and %ld", s.ok, s.out);
	if (R.chance(50)) { s.ok = s.out = 0; for (auto& e : s.all) e.reset(); for (int k = 0; k < 2; ++k) { *g + wait_all1(&s, -1); } settle(); for (int k = 0; k < 2; ++k) { REQUIRE(s.ok == k, "two wait_all: %ld ended", s.ok); for (auto& e : s.all) e.signal(); settle(); } REQUIRE(s.ok == 2 && g->empty(), "two wait_all: %ld ended", s.ok); }
}
namespace {
bool can_lock(mutex_t& m) { int me; if (!m.try_lock(&me)) return false; m.unlock(&me); return true; }
struct Mx { mutex_t mx[6]; int in = 0; std::vector<int> order, late; event_t ev; int deep = 0; };
future_t<> locker(Mx* s, int i, int hold) { auto g = co_await s->mx[0].lock(); REQUIRE(s->in++ == 0, "two holders"); s->order.push_back(i); for (; hold > 0; --hold) co_await yield(); --s->in; }
future_t<> timed_locker(Mx* s, int i, int64_t t) { bool r = co_await s->mx[0].try_lock_until(tp(t)); (r ? s->order : s->late).push_back(i); if (r) { REQUIRE(s->in++ == 0, "two holders"); co_await yield(); --s->in; co_await s->mx[0].unlock(); } }
future_t<> holder(Mx* s) { auto g = co_await s->mx[0].lock(); s->in++; co_await s->ev; --s->in; }
future_t<> deep(Mx* s, int n) { for (int i = 0; i < n; ++i) { if (i % 3 == 1) { bool r = co_await s->mx[0].try_lock(); REQUIRE(r, "the owner's try_lock failed at depth %d", i); } else if (i % 3 == 2) { bool r = co_await s->mx[0].try_lock_for(dns(MS)); REQUIRE(r, "the owner's timed lock failed at depth %d", i); } else co_await s->mx[0].lock(adopt_manual_unlock); s->deep = i + 1; } s->in++; co_await s->ev; for (int i = n; i > 0; --i) { if (i == 1) --s->in; co_await s->mx[0].unlock(); s->deep = i - 1; if (i % 512 == 2 || i < 4) co_await yield(); } }
future_t<> prober(Mx* s, bool* stop, int* wrong) { while (!*stop) { int d = s->deep; if (co_await s->mx[0].try_lock()) { if (d > 0 && s->deep > 0) ++*wrong; co_await s->mx[0].unlock(); } co_await yield(); } }
future_t<> set_locker(Mx* s, int i, uint64_t seed) { Rng r; r.seed(seed); int a = r.below(6), b = (a + 1 + r.below(5)) % 6, c; do c = r.below(6); while (c == a || c == b); for (int q = r.below(3); q > 0; --q) co_await yield(); if (r.chance(50)) { auto g = co_await mutex_t::lock(s->mx[a], s->mx[b], s->mx[c]); s->order.push_back(i); co_await yield(); } else { auto g = co_await mutex_t::lock(s->mx[b], s->mx[a]); s->order.push_back(i); } }
}
FAMILY("M01,L01", scale_mutex, 2, false)
{
	int n = scale(20000); Mx s; auto* g = G(); *g + holder(&s); settle(); for (int i = 0; i < n; ++i) *g + locker(&s, i, R.below(3)); settle(); REQUIRE(s.order.empty(), "a held mutex was locked"); s.ev.signal(); settle();
	REQUIRE((int)s.order.size() == n && g->empty(), "%zu of %d lockers got the mutex", s.order.size(), n); for (int i = 0; i < n; ++i) REQUIRE(s.order[(size_t)i] == i, "locker %d got the mutex as number %d", s.order[(size_t)i], i); REQUIRE(can_lock(s.mx[0]), "the mutex is held in the end");
}
FAMILY("M02,L01", scale_mutex_timed, 2, false)
{
	int n = scale(3000); Mx s; auto* g = G(); *g + holder(&s); settle(); int64_t t0 = vs::now(); auto ord = shuffled(n); int same = R.range(1, 4); auto dl = [&](int i) { return t0 + (ord[(size_t)i] / same + 1) * MS; };
	for (int i = 0; i < n; ++i) *g + timed_locker(&s, i, dl(i)); settle(); REQUIRE(s.order.empty() && s.late.empty(), "a timed lock ended at once"); int64_t t = t0 + R.below(n / same + 2) * MS; vs::set_now(t); settle(); REQUIRE(s.order.empty(), "a held mutex was locked");
	std::vector<char> late((size_t)n); for (int i : s.late) { late[(size_t)i] = 1; REQUIRE(dl(i) <= t, "a lock timed out before its deadline"); } std::vector<int> rest; for (int i = 0; i < n; ++i) { if (!late[(size_t)i]) rest.push_back(i); if (dl(i) < t) REQUIRE(late[(size_t)i], "lock %d is still suspended after its deadline", i); }
	s.ev.signal(); settle(); REQUIRE(s.order == rest, "%zu of %zu waiting lockers got the mutex, or in another order", s.order.size(), rest.size()); vs::set_now(t0 + (n + 2) * MS); settle(); REQUIRE(g->empty() && s.order.size() + s.late.size() == (size_t)n, "lockers are left"); REQUIRE(can_lock(s.mx[0]), "the mutex is held in the end");
}
FAMILY("M01,M02,L01", scale_mutex_deep, 2, false)
{
	int n = scale(70000), wrong = 0; bool stop = false; Mx s; auto* g = G(); int me = 0; *g + deep(&s, n); settle(); REQUIRE(s.deep == n, "the owner locked %d of %d times", s.deep, n); REQUIRE(!s.mx[0].try_lock(&me), "a held mutex was locked by another");
	*g + prober(&s, &stop, &wrong); *g + locker(&s, 7, 1); for (int i = 0; i < 4; ++i) g->run_one_batch(); REQUIRE(s.order.empty(), "a held mutex was locked by another"); s.ev.signal(); for (int i = 0; s.deep && i < n + 50; ++i) { g->run_one_batch(); if (s.deep) REQUIRE(s.order.empty(), "a mutex held %d times was locked by another", s.deep); }
	for (int i = 0; i < 6; ++i) g->run_one_batch(); stop = true; settle(); REQUIRE(!wrong, "try_lock got a mutex that another holds"); REQUIRE(s.order.size() == 1 && g->empty(), "the waiter did not get the mutex after the last unlock"); REQUIRE(s.mx[0].try_lock(&me), "the mutex is held in the end"); s.mx[0].unlock(&me);
	for (int i = 0; i < n; ++i) REQUIRE(s.mx[0].try_lock(&me), "the owner's try_lock failed at depth %d", i); int you; for (int i = n; i > 0; --i) { if (i % 97 == 1) REQUIRE(!s.mx[0].try_lock(&you), "a mutex held %d times was locked by another", i); s.mx[0].unlock(&me); } REQUIRE(can_lock(s.mx[0]), "the mutex is held in the end");
}
FAMILY("M03,L01", scale_mutex_sets, 2, false)
{
	int n = scale(40); Mx s; auto* g = G(); for (int i = 0; i < n; ++i) *g + set_locker(&s, i, R.next()); settle(); REQUIRE((int)s.order.size() == n && g->empty(), "%zu of %d coroutines locked their set", s.order.size(), n); for (auto& m : s.mx) { REQUIRE(can_lock(m), "a mutex is held in the end"); }
}
#elif PART == 3
namespace {
struct Ts { std::vector<int> order; long steps = 0; int ended = 0; scheduler_t* s[2] = {}; };
struct Ended { Ts* s; explicit Ended(Ts* q) : s(q) {} ~Ended() { s->ended++; } };
struct Deep : std::exception { long v; explicit Deep(long x) : v(x) {} };
future_t<> stepper(Ts* s, int i, int n) { Ended e(s); s->order.push_back(i); for (; n > 0; --n) { co_await yield(); s->order.push_back(i); } }
future_t<long> nest(Ts* s, int d, bool bad, void* root)
{
	Ended e(s); s->steps++;
	if (d % 61 == 0) { REQ("S04,F02", (void*)librf_root_state() == root, "root state at depth %d", d); REQ("S04", librf_current_scheduler() == s->s[0], "current scheduler at depth %d", d); }
	if (d == 0) { co_await yield(); if (bad) throw Deep(5); co_return 1; }
	long r; if (d % 97 == 3) { try { r = co_await nest(s, d - 1, bad, root); } catch (Deep& x) { throw Deep(x.v + 1); } } else r = co_await nest(s, d - 1, bad, root); co_return r + 1;
}
future_t<> nest_root(Ts* s, int d, bool bad) { void* root = librf_root_state(); bool got = false; long r = 0; try { r = co_await nest(s, d, bad, root); } catch (const Deep& x) { got = true; int want = 5; for (int i = 1; i <= d; ++i) if (i % 97 == 3) ++want; REQ("F02,F01", x.v == want, "an exception arrived as %ld, not %d", x.v, want); } REQ("F01,F02", got == bad, "the outcome of a chain of %d", d); if (!bad) REQ("F01,F02", r == d + 1, "a chain of %d returned %ld", d, r); s->order.push_back(d); }
future_t<> mover(Ts* s, int n) { for (int i = 0; i < n; ++i) { co_await via(s->s[i & 1]); REQ("S03", librf_current_scheduler() == s->s[i & 1], "via number %d", i); s->steps++; } }
future_t<> mover_deep(Ts* s, int d, int n) { if (d > 0) co_await mover_deep(s, d - 1, n); else co_await mover(s, n); REQ("S03", librf_current_scheduler() == s->s[n > 0 ? (n - 1) & 1 : 0], "a caller of via is on another scheduler at height %d", d); }
void both(Ts* s) { for (int q = 0; q < 2;) { ++q; for (auto* x : s->s) if (x->run_one_batch()) q = 0; } }
future_t<> awaits(Ts* s, future_t<long> f, int i) { long v = co_await f; REQ("F01", v == i * 3L, "result %ld of %d", v, i); s->order.push_back(i); }
}
FAMILY("S01,S02,L01", scale_tasks, 2, false)
{
	int n = scale(20000), k = n > 500 ? R.range(0, 3) : R.range(0, 2000 / n); Ts s; auto* g = G(); for (int i = 0; i < n; ++i) { *g + stepper(&s, i, k); if (i % 257 == 0) REQ("S01", !g->empty(), "empty() with %d tasks", i + 1); } REQ("S01,S02", s.order.empty(), "a task ran when it was spawned"); settle();
	REQ("S01", s.ended == n && g->empty(), "%d of %d tasks ended", s.ended, n); REQ("S01,S02", (int)s.order.size() == n * (k + 1), "%zu steps instead of %d", s.order.size(), n * (k + 1)); for (int i = 0; i < n * (k + 1); ++i) REQ("S02", s.order[(size_t)i] == i % n, "step %d was task %d's turn, task %d ran", i, i % n, s.order[(size_t)i]);
}
FAMILY("S02,S01,L01", scale_long_task, 2, false) { int n = scale(70000); Ts s; auto* g = G(); *g + stepper(&s, 0, n); *g + stepper(&s, 1, n); int b = 0; while (g->run_one_batch()) { ++b; if (b <= n + 1) REQ("S02,S01", (int)s.order.size() == 2 * b, "%zu steps in %d batches", s.order.size(), b); } REQ("S01,S02", s.ended == 2 && (int)s.order.size() == 2 * (n + 1) && g->empty(), "%zu of %d steps", s.order.size(), 2 * (n + 1)); }
FAMILY("F02,F01,S04,L01", scale_nest, 2, false) { int n = scale(6000); Ts s; auto* g = G(); s.s[0] = g; bool bad = R.chance(50); *g + nest_root(&s, n, bad); if (R.chance(50)) *g + nest_root(&s, n / 2, !bad); settle(); REQUIRE(s.steps == s.ended && s.steps >= n + 1 && g->empty() && !s.order.empty(), "%ld coroutines were entered, %d left", s.steps, s.ended); }
FAMILY("S03,L01", scale_via, 2, false) { int n = scale(20000), d = R.below(n > 1000 ? 10 : 200); Ts s; OwnScheduler two; s.s[0] = G(); s.s[1] = &two; *s.s[0] + mover_deep(&s, d, n); both(&s); REQUIRE(s.steps == n && s.s[0]->empty() && two.empty(), "%ld of %d moves", s.steps, n); }
FAMILY("F01,L01", scale_futures, 2, false)
{
	int n = scale(20000); Ts s; auto* g = G(); std::vector<awaitable_t<long>> a((size_t)n); auto o = shuffled(n); for (int i = 0; i < n; ++i) *g + awaits(&s, a[(size_t)i].get_future(), i); settle(); REQUIRE(s.order.empty(), "an await ended without result"); int k = R.below(n + 1); for (int i = 0; i < k; ++i) a[(size_t)o[(size_t)i]].set_value(o[(size_t)i] * 3L); settle(); REQUIRE((int)s.order.size() == k, "%zu of %d results arrived", s.order.size(), k);
	for (int i = k; i < n; ++i) a[(size_t)o[(size_t)i]].set_value(o[(size_t)i] * 3L); settle(); REQUIRE(s.order == o && g->empty(), "results arrived in another order than they were set");
}
FAMILY("T01,L01", scale_timers, 2, false)
{
	int n = scale(20000); auto tm = G()->timer(); int64_t t0 = vs::now(); auto ord = shuffled(n); int same = R.range(1, 5); auto dl = [&](int i) { return t0 + (ord[(size_t)i] / same + 1) * MS; }; std::vector<char> st((size_t)n); std::vector<int> order; std::vector<timer_handler> h((size_t)n);
	for (int i = 0; i < n; ++i) h[(size_t)i] = tm->add_handler(tp(dl(i)), [&, i](bool c) { REQUIRE(!st[(size_t)i], "timer %d ran twice", i); st[(size_t)i] = c ? 2 : 1; order.push_back(i); }); std::vector<char> stopped((size_t)n); int p = R.chance(50) ? R.below(101) : 0; for (int i = 0; i < n; ++i) if (R.chance(p)) { stopped[(size_t)i] = 1; h[(size_t)i].stop(); }
	REQUIRE(order.empty(), "a timer ran before its time"); int64_t t = t0; size_t from = 0; for (bool last = false; !last;) { t += R.range(1, n / same + 1) * MS; last = t > t0 + (n + 1) * MS; vs::set_now(t); tm->update(); int64_t prev = 0; for (; from < order.size(); ++from) { int i = order[from]; if (!stopped[(size_t)i]) REQUIRE(st[(size_t)i] == 1 && dl(i) <= t, "timer %d ran early or cancelled", i); if (!stopped[(size_t)i]) { REQUIRE(dl(i) >= prev, "timers ran in another order than their deadlines"); prev = dl(i); } } for (int i = 0; i < n; i += 1 + n / 300) if (dl(i) < t) REQUIRE(st[(size_t)i] || stopped[(size_t)i], "timer %d has not run", i); }
	for (int i = 0; i < n; ++i) REQUIRE(stopped[(size_t)i] ? st[(size_t)i] != 1 : st[(size_t)i] == 1, "timer %d: stopped %d, outcome %d", i, stopped[(size_t)i], st[(size_t)i]); REQUIRE(tm->empty(), "the timer manager is not empty in the end");
}
namespace { future_t<> sleeper(std::vector<int>* o, int i, int64_t t) { if (i & 1) co_await sleep_until(tp(t)); else co_await std::chrono::nanoseconds(t - vs::now()); REQUIRE(vs::now() >= t, "a sleep ended early"); o->push_back(i); } }
FAMILY("T02,L01", scale_sleeps, 2, false)
{
	int n = scale(20000); auto* g = G(); int64_t t0 = vs::now(); auto ord = shuffled(n); std::vector<int> order; auto dl = [&](int i) { return t0 + (ord[(size_t)i] / 2 + 1) * MS; }; for (int i = 0; i < n; ++i) *g + sleeper(&order, i, dl(i)); settle(); REQUIRE(order.empty(), "a sleep ended at once");
	int64_t t = t0; size_t from = 0; while (t <= t0 + (n + 1) * MS) { t += R.range(1, n / 3 + 1) * MS; vs::set_now(t); settle(); int64_t prev = 0; for (; from < order.size(); ++from) { REQUIRE(dl(order[from]) >= prev, "sleeps ended in another order than their deadlines"); prev = dl(order[from]); } } REQUIRE((int)order.size() == n && g->empty(), "%zu of %d sleeps ended", order.size(), n);
}
#else
namespace {
struct Ws { std::vector<event_t> ev; int done = 0; long got = -1; std::vector<int> order; bool ended = false; scheduler_t* g; };
future_t<long> sub(Ws* s, int i) { co_await s->ev[(size_t)i]; s->done++; co_return i * 7L; }
future_t<> subv(Ws* s, int i) { co_await s->ev[(size_t)i]; s->done++; }
future_t<> all(Ws* s, int n) { std::vector<future_t<long>> v; for (int i = 0; i < n; ++i) v.push_back(sub(s, i)); auto r = co_await when_all(*s->g, std::begin(v), std::end(v)); REQ("W01", s->done == n, "when_all ended when %d of %d sub-tasks had", s->done, n); REQ("W01", (int)r.size() == n, "%zu results of %d", r.size(), n); for (int i = 0; i < n; ++i) REQ("W01", r[(size_t)i] == i * 7L, "result %d is %ld", i, (long)r[(size_t)i]); s->ended = true; }
future_t<> allv(Ws* s, int n) { std::vector<future_t<>> v; for (int i = 0; i < n; ++i) v.push_back(subv(s, i)); co_await when_all(*s->g, v); REQ("W01", s->done == n, "when_all ended when %d of %d sub-tasks had", s->done, n); s->ended = true; }
future_t<> any(Ws* s, int n) { std::vector<future_t<long>> v; for (int i = 0; i < n; ++i) v.push_back(sub(s, i)); auto r = co_await when_any(*s->g, v); REQ("W02", s->done >= 1, "when_any ended before every sub-task"); s->got = r.first; REQ("W02", r.first >= 0 && r.first < n && std::any_cast<long>(r.second) == r.first * 7L, "when_any: index %ld with another one's value", (long)r.first); s->ended = true; }
typedef std::function<void()> Fn; typedef stop_callback<Fn> Cb;
generator_t<long> count(int n, Obj o) { for (int i = 0; i < n; ++i) co_yield i; o.check(); co_return n; }
future_t<> obeys(int i, std::vector<char>* st, std::vector<task_t*>* tk) { task_t* me = librf_current_task(); stop_token t = me->get_stop_token(); (*tk)[(size_t)i] = me; awaitable_t<> a; Cb cb(t, [&] { a.set_value(); }); auto f = a.get_future(); co_await f; (*st)[(size_t)i] = 1; }
}
FAMILY("W01,L01", scale_when_all, 2, false)
{
	int n = scale(R.chance(60) ? 70000 : 5000); Ws s; s.g = G(); for (int i = 0; i < n; ++i) s.ev.emplace_back(); auto o = shuffled(n); if (R.chance(70)) *s.g + all(&s, n); else *s.g + allv(&s, n); bool pre = R.chance(20); if (!pre) settle();
	for (int i = 0; i < n; ++i) { REQUIRE(!s.ended, "when_all ended early"); s.ev[(size_t)o[(size_t)i]].signal(); if ((n < 5000 && R.chance(2)) || (R.chance(1) && R.chance(10)) || i == n - 2) settle(); } settle(); REQUIRE(s.ended && s.g->empty(), "when_all of %d has not ended", n);
}
FAMILY("W02,L01", scale_when_any, 2, false)
{
	int n = scale(R.chance(60) ? 70000 : 5000); Ws s; s.g = G(); for (int i = 0; i < n; ++i) s.ev.emplace_back(); auto o = shuffled(n); *s.g + any(&s, n); settle(); REQUIRE(!s.ended, "when_any ended early"); s.ev[(size_t)o[0]].signal(); if (R.chance(50)) settle(); else for (int i = 1; i < n && i < 4; ++i) s.ev[(size_t)o[(size_t)i]].signal(); settle(); REQUIRE(s.ended && s.got == o[0], "when_any: %ld, sub-task %d was first", s.got, o[0]);
	for (auto& e : s.ev) e.signal(); settle(); REQUIRE(s.g->empty(), "losers are left");
}
namespace { struct Cst : state_base_t { Obj o; int* gone; Cst(int* g) : o(5), gone(g) {} ~Cst() { ++*gone; } }; }
FAMILY("D03,L01", scale_counted, 2, false)   // very many references to one target, and one target more behind each
{
	typedef counted_ptr<Cst> P; int n = scale(70000), gone = 0, k = 0; std::vector<P> v; { P p(new Cst(&gone)); for (int i = 0; i < n; ++i) { if (R.chance(50)) v.push_back(p); else v.emplace_back(p.get()); if (R.chance(1)) { P q; q = v[(size_t)R.below(i + 1)]; std::swap(q, v[(size_t)R.below(i + 1)]); } } }
	REQUIRE(!gone, "the target is gone with %d references to it", n); auto o = shuffled(n); for (int i = 0; i < n; ++i) { v[(size_t)o[(size_t)i]] = nullptr; ++k; REQUIRE(gone == (k == n), "the target is %s after %d of %d references were dropped", gone ? "gone" : "alive", k, n); if (!gone && i % 97 == 0) v[(size_t)o[(size_t)(n - 1)]]->o.check(); }
	vs::log(STEP, k, gone);
}
namespace { struct Bl { int held = 0, refuse = 0; long taken = 0; static bool bad; void lock() { bad |= held != 0; held++; taken++; } bool try_lock() { bad |= held != 0; if (refuse) { --refuse; return false; } held++; taken++; return true; } void unlock() { bad |= held != 1; held--; } }; bool Bl::bad; }
FAMILY("D02,L01", scale_batch, 2, false)   // one batch over very many locks, some of which refuse a few times
{
	int n = scale(70000), k = R.below(6); std::vector<Bl> all((size_t)n); Bl::bad = false; for (int i = 0; i < k; ++i) all[(size_t)R.below(n)].refuse++;
	for (int r = 0; r < 2; ++r) {
		auto check = [&](int want, const char* when) { REQUIRE(!Bl::bad, "a lock was taken while held or released while free %s", when); for (int i = 0; i < n; ++i) REQUIRE(all[(size_t)i].held == want, "lock %d of %d is %sheld %s", i, n, want ? "not " : "", when); };
		if (R.chance(50)) { { batch_lock_t<Bl> b(all); check(1, "in a batch"); if (R.chance(30)) b.unlock(); } check(0, "after the batch"); }
		else { std::vector<std::reference_wrapper<Bl>> v; for (int i : shuffled(n)) v.push_back(all[(size_t)i]); { batch_lock_t<std::reference_wrapper<Bl>> b(v), c(std::move(b)); check(1, "in a batch"); } check(0, "after the batch"); }
	}
	vs::log(STEP, n, k);
}
FAMILY("K01,L01", scale_stop, 2, false)
{
	int n = scale(20000); std::vector<int> runs((size_t)n); std::vector<std::unique_ptr<Cb>> cb; std::vector<stop_token> tk; std::vector<stop_source> src; src.emplace_back(); stop_token t = src[0].get_token(); int toks = scale(70000), srcs = scale(70000);
	for (int i = 0; i < toks; ++i) tk.push_back(t); for (int i = 0; i < srcs; ++i) src.push_back(src[0]); for (int i = 0; i < n; ++i) cb.push_back(std::make_unique<Cb>(tk[(size_t)(i % toks)], Fn([&runs, i] { runs[(size_t)i]++; }))); REQUIRE(t.stop_possible() && !t.stop_requested(), "with %d tokens and %d sources no stop is possible", toks, srcs);
	int gone = R.chance(50) ? R.below(n + 1) : 0; auto o = shuffled(n); for (int i = 0; i < gone; ++i) cb[(size_t)o[(size_t)i]].reset(); tk.clear(); REQUIRE(t.stop_possible() && !t.stop_requested(), "state after %d tokens are gone", toks); while ((int)src.size() > 1) { src.pop_back(); if (src.size() % 251 == 0) REQUIRE(t.stop_possible(), "no stop is possible with %zu sources", src.size()); }
	REQUIRE(t.stop_possible() && !t.stop_requested(), "the last source is left, but no stop is possible"); if (R.chance(30)) { src.clear(); REQUIRE(!t.stop_possible() && !t.stop_requested(), "a stop is possible without sources"); gone = n; for (int i = 0; i < n; ++i) REQUIRE(!runs[(size_t)i], "a callback ran"); return; }
	REQUIRE(src[0].request_stop() && !src[0].request_stop() && t.stop_requested(), "request_stop"); for (int i = 0; i < n; ++i) REQUIRE(runs[(size_t)o[(size_t)i]] == (i >= gone), "callback %d ran %d times", o[(size_t)i], runs[(size_t)o[(size_t)i]]);
}
FAMILY("K02,L01", scale_stop_tasks, 2, false)
{
	int n = scale(10000); auto* g = G(); std::vector<char> st((size_t)n); std::vector<task_t*> tk((size_t)n); for (int i = 0; i < n; ++i) *g + obeys(i, &st, &tk); settle(); auto o = shuffled(n); int k = R.below(n + 1); for (int i = 0; i < k; ++i) REQUIRE(tk[(size_t)o[(size_t)i]]->request_stop(), "request_stop of a task"); settle();
	for (int i = 0; i < n; ++i) REQUIRE(st[(size_t)o[(size_t)i]] == (i < k), "task %d: stopped %d", o[(size_t)i], i < k); for (int i = k; i < n; ++i) tk[(size_t)o[(size_t)i]]->request_stop(); settle(); REQUIRE(g->empty(), "tasks are left");
}
FAMILY("G01,L01", scale_gen, 2, false)
{
	int n = scale(70000); { long i = 0; auto g = count(n, Obj(1)); for (auto& v : g) { REQUIRE(v == i, "element %ld is %ld", i, (long)v); ++i; } REQUIRE(i == n || i == n + 1, "%ld elements of %d", i, n); vs::log(STEP, i); }
	std::vector<generator_t<long>> gs; int m = std::min(n, 3000); for (int i = 0; i < m; ++i) gs.push_back(count(3, Obj(i))); for (int r = 0; r < 3; ++r) for (auto& g : gs) { auto it = g.begin(); (void)it; } 
}
#endif
