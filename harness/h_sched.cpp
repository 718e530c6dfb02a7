// Scheduling: S01 (completion), S02 (order), S03 (place), S04 (context queries).
#include "mon.h"
#include <optional>
#ifndef FUT_RACE
#define FUT_RACE true
#endif
using namespace mon;

namespace {
enum { SPAWN = 1, START, END, PUSH, RUN, VIA, FIRE, SIGNAL, SETV, TURN, NOTASK };
const char* kn(uint32_t k) { static const char* n[] = {"?", "SPAWN", "START", "END", "PUSH", "RUN", "VIA", "FIRE", "SIGNAL", "SET", "TURN", "NOTASK"}; return k < 12 ? n[k] : "?"; }

#if PART == 1
// ------------------------------------------------------------------ exact model: one ready queue per scheduler
struct Task { int id; int sch; bool spawned = false, done = false; int started = 0; task_t* ptr = nullptr; state_base_t* root = nullptr; bool is_gen = false; };
struct Sys {
	std::vector<scheduler_t*> s; std::vector<std::unique_ptr<OwnScheduler>> own;
	std::vector<std::deque<int>> ready;                 // coroutine ids
	struct Co { int task; int sch; bool live = true; };
	std::vector<Co> co; std::vector<Task> task; int running = -1; int live_tasks = 0; int64_t t0;
	struct Tm { int64_t at; int co; int sch; bool fired = false; }; std::vector<Tm> tm;
	struct Ev { long credits = 0; std::deque<int> q; }; std::vector<Ev> evm; std::vector<event_t> ev;
	struct Aw { std::unique_ptr<awaitable_t<long>> a; bool set = false; int waiter = -1; long v = 0; }; std::vector<Aw> aw;
	int budget = big ? 1500 : 120; bool in_code = false;

	int new_co(int t, int sch) { co.push_back(Co{ t, sch }); return (int)co.size() - 1; }
	void push(int c, int sch) { ready[(size_t)sch].push_back(c); vs::log(PUSH, c, sch); }
	int sch_of(int c) { return task[(size_t)co[(size_t)c].task].sch; }
	// a coroutine goes on: it must be its turn
	void run(int c)
	{
		vs::log(RUN, c, running);
		REQUIRE(!in_code, "coroutine %d runs inside another coroutine of the scheduler", c);
		in_code = true;
		int sch = sch_of(c);
		REQ("S01,S03", running >= 0, "coroutine %d runs outside of its scheduler", c);
		REQ("S01,S03", running == sch, "coroutine %d runs on scheduler %d, it belongs to %d", c, running, sch);
		auto& q = ready[(size_t)sch];
		bool found = false; for (int x : q) if (x == c) found = true;
		REQ("S01", found, "coroutine %d was resumed although nothing it waits for has happened", c);
		REQ("S01,S02", !q.empty(), "coroutine %d runs, nobody is ready", c);
		REQ("S02", q.front() == c, "coroutine %d runs before coroutine %d, which became ready earlier", c, q.front());
		for (auto it = q.begin(); it != q.end(); ++it) if (*it == c) { q.erase(it); break; }
		if (q.size() > 2) cover("several ready");
	}
	void stop() { in_code = false; }
	bool fire(int sch)                                   // before a batch of scheduler sch
	{
		for (bool any = false;;) { Tm* b = nullptr; for (auto& t : tm) if (!t.fired && t.sch == sch && t.at <= vs::now() && (!b || t.at < b->at)) b = &t; if (!b) return any; any = b->fired = true; vs::log(FIRE, b->co); push(b->co, sch_of(b->co)); }
	}
	bool timers(int sch) { for (auto& t : tm) if (!t.fired && t.sch == sch) return true; return false; }
	void signal(int k) { vs::log(SIGNAL, k); Ev& e = evm[(size_t)k]; if (e.q.empty()) ++e.credits; else { int c = e.q.front(); e.q.pop_front(); push(c, sch_of(c)); } ev[(size_t)k].signal(); }
	void set(int k) { Aw& a = aw[(size_t)k]; if (a.set) return; a.set = true; vs::log(SETV, k, a.waiter); if (a.waiter >= 0) push(a.waiter, sch_of(a.waiter)); a.a->set_value(a.v); }
	bool batch(int i)
	{
		bool was = in_code; in_code = false;
		bool fired = fire(i); bool expect = !ready[(size_t)i].empty();
		int prev = running; running = i; bool r = s[(size_t)i]->run_one_batch(); running = prev;
		REQ("S01", r || !expect, "run_one_batch returned false although coroutines were ready");
		REQ("S01", r || ready[(size_t)i].empty(), "run_one_batch returned false and left coroutines ready");
		in_code = was; return r || fired;
	}
	void check_settled()
	{
		for (size_t i = 0; i < s.size(); ++i) {
			REQ("S01", ready[i].empty(), "coroutine %d is ready for ever", ready[i].front());
			int n = 0; for (auto& t : task) if (t.spawned && !t.done && t.sch == (int)i) ++n;
			bool e = s[i]->empty(), m = n == 0 && !timers((int)i);
			REQ("S01,S03", e == m, "scheduler %zu: empty() says %d, it has %d unfinished tasks and %s timer", i, e, n, timers((int)i) ? "a" : "no");
		}
	}
};
struct Fin { Sys* s; int t; Fin(Sys* s_, int t_) : s(s_), t(t_) {} Fin(const Fin&) = delete;
	~Fin() { Task& k = s->task[(size_t)t]; REQ("S01", !k.done, "task %d ended twice", t); k.done = true; --s->live_tasks; vs::log(END, t); } };
void started(Sys* s, int t) { Task& k = s->task[(size_t)t]; REQ("S01", k.started++ == 0, "task %d was started twice", t); vs::log(START, t, s->running); }
void spawn(Sys* s, int sch, int depth);

#define CHECK_CTX() do { \
	auto* st_ = librf_root_state(); auto* sc_ = librf_current_scheduler(); auto* tk_ = librf_current_task(); Task& t_ = s->task[(size_t)s->co[(size_t)me].task]; \
	if (!t_.root) { t_.root = st_; for (auto& o_ : s->task) REQ("S04", o_.id == t_.id || o_.done || !o_.started || o_.is_gen || o_.root != st_, "two live tasks share librf_root_state()"); } \
	REQ("S04", t_.root == st_, "librf_root_state() differs inside task %d", t_.id); \
	REQ("S04", sc_ == s->s[(size_t)t_.sch], "librf_current_scheduler() is not the scheduler that runs the coroutine"); \
	REQ("S04", t_.ptr == tk_ && tk_, "librf_current_task() is not the task that was spawned"); cover("context queried"); } while (0)

future_t<long> code(Sys* s, int me, int depth, int n, int parent)
{
	Obj local(me * 100 + depth); int my_task = s->co[(size_t)me].task;
	s->run(me);
	if (R.chance(30)) CHECK_CTX();
	for (int i = 0; i < n; ++i) {
		if (--s->budget < 0) break;
		int q = R.below(100);
		if (q < 25) { s->push(me, s->sch_of(me)); s->stop(); co_await yield(); s->run(me); }
		else if (q < 40 && depth > 0) {
			int c = s->new_co(my_task, 0); s->push(c, s->sch_of(me)); s->stop();
			long v = co_await code(s, c, depth - 1, R.below(5), me);
			s->run(me); REQ("S01", v == c * 7, "a sub-coroutine returned %ld, must be %d", v, c * 7); cover("sub-coroutine");
		} else if (q < 50) spawn(s, R.chance(60) ? -1 : R.below((int)s->s.size()), depth - 1);
		else if (q < 60) {
			int k = R.below((int)s->ev.size()); auto& e = s->evm[(size_t)k];
			if (e.credits > 0) { --e.credits; bool r = co_await s->ev[(size_t)k]; REQUIRE(r, "wait"); }
			else { e.q.push_back(me); s->stop(); co_await s->ev[(size_t)k]; s->run(me); cover("woken by an event"); }
		} else if (q < 68) s->signal(R.below((int)s->ev.size()));
		else if (q < 76) {
			int64_t d = R.below(4) * MS; int where = R.chance(75) ? s->sch_of(me) : R.below((int)s->s.size());
			s->tm.push_back(Sys::Tm{ vs::now() + d, me, where }); s->stop();
			co_await sleep_until(tp(vs::now() + d), *s->s[(size_t)where]); s->run(me); cover("woken by a timer");
		} else if (q < 82) {
			int k = (int)s->aw.size(); s->aw.emplace_back(); auto& a = s->aw.back(); a.a = std::make_unique<awaitable_t<long>>(); a.v = k * 11;
			auto f = a.a->get_future();
			if (R.chance(25)) { s->set(k); long v = co_await f; REQ("S01", v == k * 11, "value"); }
			else { a.waiter = me; s->stop(); long v = co_await f; s->run(me); REQ("S01", v == k * 11, "value"); cover("woken by a result"); }
		} else if (q < 88) { for (size_t k = 0; k < s->aw.size(); ++k) if (!s->aw[k].set && R.chance(50)) s->set((int)k); }
		else if (q < 95) {
			int to = R.below((int)s->s.size()); bool here = to == s->sch_of(me); Task& t = s->task[(size_t)my_task];
			vs::log(VIA, me, to);
			if (here) { co_await via(s->s[(size_t)to]); REQ("S03", s->in_code, "via to the current scheduler suspended"); cover("via to the same"); }
			else { t.sch = to; s->push(me, to); s->stop(); if (R.chance(50)) co_await via(s->s[(size_t)to]); else co_await via(*s->s[(size_t)to]); s->run(me); cover(parent >= 0 ? "via in depth" : "via at the root"); CHECK_CTX(); }
			REQ("S03", local.get() == me * 100 + depth, "a local changed");
		} else CHECK_CTX();
	}
	if (parent >= 0) s->push(parent, s->sch_of(me));
	s->stop();
	co_return me * 7L;
}
future_t<> root_code(Sys* s, int me, int depth, int n)
{
	int t = s->co[(size_t)me].task; Fin fin(s, t);
	started(s, t); s->run(me);
	CHECK_CTX();
	int c = s->new_co(t, 0); s->push(c, s->sch_of(me)); s->stop();
	co_await code(s, c, depth, n, me);
	s->run(me); CHECK_CTX();
	s->stop();
}
future_t<long> yielding_root(Sys* s, int me, int n)           // co_yield in a future_t task
{
	int t = s->co[(size_t)me].task; Fin fin(s, t);
	started(s, t); s->run(me); CHECK_CTX();
	for (int i = 0; i < n; ++i) { s->push(me, s->sch_of(me)); s->stop(); co_yield (long)i; s->run(me); cover("co_yield in a task"); }
	CHECK_CTX();
	s->stop(); co_return 5;
}
generator_t<long> gen_root(Sys* s, int me, int n)
{
	int t = s->co[(size_t)me].task; Fin fin(s, t);
	started(s, t); s->run(me);
	for (int i = 0; i < n; ++i) { s->push(me, s->sch_of(me)); s->stop(); co_yield (long)i; s->run(me); cover("generator task"); }
	s->stop(); co_return 1;
}
void spawn(Sys* s, int sch, int depth)
{
	if ((int)s->task.size() > (big ? 150 : 14)) return;
	int where = sch < 0 ? 0 : sch;
	int t = (int)s->task.size(); s->task.emplace_back(); Task& k = s->task.back(); k.id = t; k.sch = where; k.spawned = true; ++s->live_tasks;
	int c = s->new_co(t, where); vs::log(SPAWN, t, where);
	s->push(c, where);
	scheduler_t* sc = s->s[(size_t)where]; task_t* p;
	int n = R.below(7), q = R.below(100); if (depth < 0) depth = 0;
	bool was = s->in_code; s->in_code = false;
	if (q < 30) p = *sc + root_code(s, c, depth, n);
	else if (q < 50) { Obj cap(t); p = *sc + [s, c, depth, n, cap]() -> future_t<> { cap.check(); return root_code(s, c, depth, n); }; }
	else if (q < 65) p = *sc + yielding_root(s, c, n);
	else if (q < 80) { k.is_gen = true; p = *sc + gen_root(s, c, n); }
	else if (q < 90) { k.is_gen = true; p = *sc + [s, c, n]() { return gen_root(s, c, n); }; }
	else { auto f = root_code(s, c, depth, n); if (where == 0) { p = go f; } else p = *sc + f; }
	s->in_code = was;
	REQ("S01,S04", p != nullptr, "no task"); s->task[(size_t)t].ptr = p;
}
void run_st()
{
	vs::kind_name = kn;
	auto sp = std::make_unique<Sys>(); Sys& s = *sp;
	s.s.push_back(G()); int extra = R.chance(50) ? R.range(1, 2) : 0;
	for (int i = 0; i < extra; ++i) { s.own.push_back(std::make_unique<OwnScheduler>()); s.s.push_back(s.own.back().get()); }
	REQ("S04", this_scheduler() == s.s[0], "the bound scheduler changed");
	s.ready.resize(s.s.size()); int ne = R.range(1, 2); s.evm.resize((size_t)ne); for (int i = 0; i < ne; ++i) s.ev.emplace_back();
	s.task.reserve(256); s.co.reserve(8192);
	int nt = upto(1, 6, 100); for (int i = 0; i < nt; ++i) spawn(&s, R.below((int)s.s.size()), upto(0, 3, 16));
	// an awaitable that is ready already, or gets ready later, handed to the scheduler itself
	int lone = R.chance(25) ? R.range(1, 3) : 0; awaitable_t<long> la; if (lone) { if (lone == 1) la.set_value(3L); }
	if (lone == 2) { go la.get_future(); REQ("S01", !G()->empty(), "a pending future is not counted"); la.set_value(4L); cover("future spawned, then set"); }
	else if (lone == 3) { auto f = la.get_future(); la.set_value(5L); go f; cover("future set, then spawned"); }
	int guard = 0;
	for (;;) {
		bool any = false;
		for (size_t k = 0; k < s.s.size(); ++k) {
			int i = R.below((int)s.s.size()); if (s.s.size() == 1) i = 0;
			int rep = R.range(1, 3); while (rep-- > 0) any |= s.batch(i);
			REQUIRE(++guard < 30000, "never settles");
			int q = R.below(100);
			if (q < 10) { s.signal(R.below(ne)); any = true; } else if (q < 15) { spawn(&s, R.below((int)s.s.size()), 2); any = true; }
			else if (q < 20) for (size_t a = 0; a < s.aw.size(); ++a) if (!s.aw[a].set && R.chance(50)) { s.set((int)a); any = true; }
		}
		if (any) continue;
		any = false; for (size_t i = 0; i < s.s.size(); ++i) any |= s.batch((int)i);
		if (any) continue;
		s.check_settled();
		if (s.live_tasks == 0) { bool pend = false; for (size_t i = 0; i < s.s.size(); ++i) pend |= s.timers((int)i); if (!pend) break; }
		bool did = false;
		if (R.chance(50)) { int64_t b = INT64_MAX; for (auto& t : s.tm) if (!t.fired) b = std::min(b, t.at); if (b != INT64_MAX) { vs::set_now(std::max(vs::now(), b - (R.chance(20) ? 1 : 0) + R.below(3) * MS)); did = true; } }
		if (!did || R.chance(30)) { for (size_t a = 0; a < s.aw.size(); ++a) s.set((int)a); for (int k = 0; k < ne; ++k) while (!s.evm[(size_t)k].q.empty()) s.signal(k); }
	}
	for (auto& t : s.task) { REQ("S01", t.started == 1 && t.done, "task %d did not run to its end", t.id); }
	for (auto* x : s.s) REQ("S01", x->empty() && !x->run_one_batch(), "scheduler is not empty in the end");
	for (auto* x : s.s) { vs::NoPreempt np; x->run_until_notask(); }
	sp.reset();
	REQ("S04", this_scheduler() == &scheduler_t::g_scheduler, "destroying another scheduler unbound this thread's");
}
// run_until_notask on a scheduler that has all it needs inside
future_t<> chain(std::shared_ptr<std::vector<int>> log, std::vector<event_t> ev, size_t me, int rounds)
{
	for (int r = 0; r < rounds; ++r) { co_await ev[me]; log->push_back((int)me); vs::log(TURN, (int64_t)me, r); ev[(me + 1) % ev.size()].signal(); if (R.chance(30)) co_await yield(); }
}
void run_notask()
{
	vs::kind_name = kn;
	auto log = std::make_shared<std::vector<int>>(); size_t n = (size_t)upto(1, 6, 200); int rounds = R.range(1, 5); std::vector<event_t> ev(n);
	auto ended = std::make_shared<int>(0); int spawned = 0;
	for (size_t i = 0; i < n; ++i) go chain(log, ev, i, rounds);
	auto sub = [ended](int d, auto&& self) -> future_t<> { vs::log(START, d); if (d > 0) { co_await self(d - 1, self); } if (R.chance(50)) co_await yield(); vs::log(END, d); ++*ended; };
	for (int i = R.below(4); i > 0; --i) { int d = upto(0, 4, 250); spawned += d + 1; go sub(d, sub); }
	if (big) { for (int i = R.below(3000); i > 0; --i) { ++spawned; go sub(0, sub); } cover("thousands of tasks"); }
	struct G2 { static generator_t<int> g(std::shared_ptr<int> e, int k) { for (int i = 0; i < k; ++i) { vs::log(TURN, -1, i); co_yield i; } ++*e; co_return 0; } };
	for (int i = R.below(3); i > 0; --i) { ++spawned; go G2::g(ended, R.below(6)); }
	auto tm = std::make_shared<int>(0); int nt = upto(0, 2, 150); for (int i = 0; i < nt; ++i) (void)G()->timer()->add(dns(-R.below(2)), [tm](bool c) { if (!c) ++*tm; });
	bool moving = R.chance(50);      // time passes while it runs: timers of the future, sleepers
	if (moving) {
		int64_t last = vs::now();      // timers move the clock on: each one is due when it is added
		auto at = [&] { int64_t t = vs::now() + R.range(0, 50) * 100000; last = std::max(last, t); return t; };
		for (int i = R.below(4); i > 0; --i) { ++nt; int64_t t = at(); (void)G()->timer()->add(tp(t), [tm](bool c) { if (!c) ++*tm; }); cover("timer of the future"); }
		for (int i = R.below(3); i > 0; --i) { ++spawned; int64_t t = at(); go [ended, t]() -> future_t<> { co_await sleep_until(tp(t)); ++*ended; }; }
		struct Tick { int64_t last; void operator()(bool c) const { if (c) return; vs::set_now(vs::now() + R.range(1, 10) * 100000); if (vs::now() < last) (void)G()->timer()->add(tp(vs::now()), Tick{ last }); } };
		(void)G()->timer()->add(tp(vs::now()), Tick{ last });
	}
	awaitable_t<int> a; if (R.chance(40)) { auto f = a.get_future(); if (R.chance(50)) { a.set_value(1); go f; } else { go f; a.set_value(1); } }
	ev[0].signal();
	G()->run_until_notask();
	vs::log(NOTASK, (int64_t)log->size());
	REQUIRE(log->size() == n * (size_t)rounds, "run_until_notask returned with tasks unfinished (%zu turns of %zu)", log->size(), n * (size_t)rounds);
	REQUIRE(*ended == spawned, "run_until_notask returned with %d of %d tasks unfinished", spawned - *ended, spawned);
	REQUIRE(*tm == nt, "run_until_notask returned with timers pending");
	REQUIRE(G()->empty(), "run_until_notask returned and empty() is false");
	cover("run_until_notask returned");
}
// futures of awaitables as tasks of their own: set before or after they were spawned, with a value or an exception, while other things run
template<class T> struct Fv { static void set(awaitable_t<T>& a) { a.set_value(Mk<T>::make(3)); } };
template<> struct Fv<void> { static void set(awaitable_t<>& a) { a.set_value(); } };
template<> struct Fv<int&> { static void set(awaitable_t<int&>& a) { static int x; a.set_value(x); } };
struct Fut { std::function<void()> spawn, set; int on; bool spawned = false, done = false; };
struct Oops { Obj o; };
template<class T> Fut make_fut(scheduler_t* s, int on)
{
	auto a = std::make_shared<awaitable_t<T>>(); auto f = std::make_shared<std::optional<future_t<T>>>(a->get_future()); bool bad = R.chance(30), drop = R.chance(50); Fut x; x.on = on;
	x.spawn = [s, f] { *s + std::move(**f); f->reset(); }; x.set = [a, bad, drop]() mutable { if (bad) a->throw_exception(Oops{ Obj(3) }); else Fv<T>::set(*a); if (drop) a.reset(); }; cover(bad ? "ends with an exception" : "ends with a value"); return x;
}
void run_fut_st()
{
	vs::kind_name = kn; std::vector<std::unique_ptr<OwnScheduler>> own; std::vector<scheduler_t*> s{ G() }; if (R.chance(50)) { own.push_back(std::make_unique<OwnScheduler>()); s.push_back(own[0].get()); }
	std::vector<Fut> v; int n = upto(1, 8, 150), left = n, ran = 0, want = 0; std::vector<int> pending(s.size());
	for (int i = 0; i < n; ++i) { int on = R.below((int)s.size()); auto* x = s[(size_t)on]; switch (R.below(5)) { case 0: v.push_back(make_fut<void>(x, on)); break; case 1: v.push_back(make_fut<long>(x, on)); break; case 2: v.push_back(make_fut<Obj>(x, on)); break; case 3: v.push_back(make_fut<int&>(x, on)); break; default: v.push_back(make_fut<std::string>(x, on)); break; } }
	auto check = [&] { for (size_t i = 0; i < s.size(); ++i) if (pending[i]) REQ("S01", !s[i]->empty(), "a future that is not ready is not counted"); };
	for (int g = 0; left > 0; ++g) {
		REQUIRE(g < 100000, "never ends"); Fut& f = v[(size_t)R.below(n)]; int q = R.below(10);
		if (q < 3 && !f.spawned) { f.spawn(); vs::log(SPAWN, &f - &v[0], f.on); f.spawned = true; if (!f.done) { ++pending[(size_t)f.on]; cover("future spawned, then set"); } else { --left; cover("future set, then spawned"); } }
		else if (q < 6 && !f.done) { f.set(); vs::log(END, &f - &v[0], f.on); f.done = true; if (f.spawned) { --pending[(size_t)f.on]; --left; } }
		else if (q < 8) s[(size_t)R.below((int)s.size())]->run_one_batch();
		else if (q == 8 && R.chance(20)) { ++want; auto* x = s[(size_t)R.below((int)s.size())]; *x + [&ran]() -> future_t<> { co_await yield(); ++ran; }; }
		check();
	}
	for (auto* x : s) for (int i = 0; x->run_one_batch(); ++i) REQ("S01,S02", i < 20, "a scheduler whose futures are all ready is never idle");
	for (auto* x : s) REQ("S01,S03", x->empty(), "a future that was a task is done, and its scheduler still counts it"); REQ("S01", ran == want, "%d of %d tasks ended", ran, want);
	{ vs::NoPreempt np; s[0]->run_until_notask(); }
}
#else
// ------------------------------------------------------------------ several threads
struct Sys { World* w = nullptr; Rx<int> started[64], ended[64], ntask; Rx<int> tid[8]; std::vector<event_t> ev; channel_t<long> ch{ 2 }; mutex_t mx; std::vector<awaitable_t<long>> aw; Rx<int> nset; Rx<int> depth_ok; long data = 0; Rx<long> count; Rx<int> running[8]; };
struct Place { Sys* s; int sch; Rng r; state_base_t* root = nullptr; task_t* task = nullptr;
	void here(const char* what) { scheduler_t* want = s->w->s(sch); REQ("S01,S03", this_scheduler() == want && s->tid[sch] == vs::self(), "after %s the coroutine runs on a thread that is not its scheduler's", what); REQ("S01,S03", s->running[sch], "after %s the coroutine runs outside of run_one_batch", what); } };
future_t<> moves(Place* p, int depth)
{
	Sys* s = p->s; Obj keep(depth * 17 + p->sch); long kv = depth * 17 + p->sch;
	int n = p->r.below(5);
	for (int i = 0; i < n; ++i) {
		switch (p->r.below(9)) {
		case 0: co_await yield(); p->here("yield"); break;
		case 1: case 2: { int to = p->r.below(s->w->n); bool same = to == p->sch; p->sch = to; if (p->r.chance(50)) co_await via(s->w->s(to)); else co_await via(*s->w->s(to)); p->here("via"); cover(same ? "via to the same" : depth ? "via in depth" : "via at the root"); break; }
		case 3: { int64_t t = vs::now() + p->r.range(0, 10) * 100000; vs::add_deadline(t); co_await sleep_until(tp(t)); p->here("a sleep"); REQ("S01,T02", vs::now() >= t, "slept too short"); break; }
		case 4: { int64_t t = vs::now() + p->r.range(0, 10) * 100000; vs::add_deadline(t); co_await s->ev[(size_t)p->r.below((int)s->ev.size())].wait_until(tp(t)); p->here("an event"); break; }
		case 5: { auto g = co_await s->mx.lock(); p->here("a mutex"); ++s->data; s->count.add(1); if (p->r.chance(40)) { co_await yield(); p->here("yield"); } break; }
		case 6: if (depth < 3) { co_await moves(p, depth + 1); p->here("a sub-coroutine"); } break;
		case 7: {                                  // a value through a channel; its only reader and writer is this task
			channel_t<long> ch(1); co_await ch.write(kv); p->here("a channel write"); long v = co_await ch.read(); p->here("a channel"); REQ("S01,C01", v == kv, "value"); break; }
		default: {
			auto* st = librf_root_state(); auto* sc = librf_current_scheduler(); auto* tk = librf_current_task();
			REQ("S04", !p->root || st == p->root, "librf_root_state() differs inside one task"); p->root = st;
			REQ("S04", sc == s->w->s(p->sch), "librf_current_scheduler() is not the scheduler that runs the coroutine");
			REQ("S04", tk && (!p->task || p->task == tk), "librf_current_task() changed"); p->task = tk; cover("queried"); break; }
		}
		REQ("S03", keep.get() == kv, "a local changed");
	}
}
future_t<> mover(Sys* s, int t, int sch, uint64_t seed)
{
	auto pp = std::make_unique<Place>(); pp->s = s; pp->sch = sch; pp->r.seed(seed);
	REQ("S01", s->started[t].add(1) == 0, "task %d was started twice", t); pp->here("the start"); vs::log(START, t, sch);
	co_await moves(pp.get(), 0); pp->here("a sub-coroutine");
	// results that another thread sets
	if (t < (int)s->aw.size()) { auto f = s->aw[(size_t)t].get_future(); long v = co_await f; pp->here("a result"); REQ("S01,F01", v == t * 13, "result %ld, must be %d", v, t * 13); }
	REQ("S01", s->ended[t].add(1) == 0, "task %d ended twice", t); vs::log(END, t, pp->sch);
}
generator_t<int> mt_gen(Sys* s, int t, int n)
{
	REQ("S01", s->started[t].add(1) == 0, "task %d was started twice", t); vs::log(START, t, -1);
	for (int i = 0; i < n; ++i) co_yield i;
	REQ("S01", s->ended[t].add(1) == 0, "task %d ended twice", t); vs::log(END, t, -1); co_return 0;
}
void run_via()
{
	vs::kind_name = kn;
	Sys s; World w(R.range(2, 3)); s.w = &w; s.ev.resize(2); for (int i = 0; i < w.n; ++i) s.running[i] = 0;
	int nt = upto(1, 6, 40); for (int i = 0; i < nt; ++i) s.aw.emplace_back(); std::vector<awaitable_t<long>> set = s.aw;
	struct Sp { int sch; uint64_t seed; int how; }; std::vector<Sp> sp; for (int i = 0; i < nt; ++i) sp.push_back(Sp{ R.below(w.n), R.next(), R.below(2) });
	w.init = [&](int i) { s.tid[i] = vs::self(); s.running[i] = 1; for (int q = 0; q < nt; ++q) if (sp[(size_t)q].sch == i) go mover(&s, q, i, sp[(size_t)q].seed); };
	if (R.chance(60)) vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 30) * 100000);
	std::vector<int> order; for (int i = 0; i < nt; ++i) order.push_back(i); for (size_t j = order.size(); j > 1; --j) std::swap(order[j - 1], order[(size_t)R.below((int)j)]);
	w.ext.push_back([&s, order, set, seed = R.next()] { Rng r; r.seed(seed); for (int k : order) { if (r.chance(40)) vs::yield(); set[(size_t)k].set_value((long)k * 13); if (r.chance(30)) s.ev[(size_t)r.below(2)].signal(); } });
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	for (int i = 0; i < nt; ++i) REQ("S01,S03", s.started[i] == 1 && s.ended[i] == 1, "task %d did not run to its end", i);
	w.finish();
	REQUIRE(s.data == s.count, "lost");
}
// spawning from other threads; schedulers driven by run_until_notask; turns of yielding coroutines
struct RSys { std::atomic<scheduler_t*> sch[4]; Rx<int> up; int n; Rx<int> started[96], ended[96], next, spawned_done, need; Rx<int> late; int tid[4]; std::vector<event_t> ev; };
future_t<> job(RSys* s, int t, int sch, uint64_t seed)
{
	Rng r; r.seed(seed);
	REQ("S01", s->started[t].add(1) == 0, "task %d was started twice", t);
	REQ("S01,S03", s->tid[sch] == vs::self(), "started on another thread"); vs::log(START, t, sch);
	int n = r.below(6);
	for (int i = 0; i < n; ++i) {
		vs::log(TURN, t, sch);
		int q = r.below(10);
		if (q < 6) co_await yield();
		else if (q < 8) { co_await sleep_until(tp(vs::now() + r.range(0, 5) * 100000)); }
		else if (q < 9 && t < 40) { int u = s->next.add(1); if (u < 90) go job(s, u, sch, r.next()); else s->next.add(-1); }
		else co_await [](RSys* s2, int sc) -> future_t<> { co_await yield(); REQ("S03", s2->tid[sc] == vs::self(), "place"); }(s, sch);
		REQ("S01,S03", s->tid[sch] == vs::self(), "resumed on another thread");
	}
	REQ("S01", s->ended[t].add(1) == 0, "task %d ended twice", t); vs::log(END, t, sch);
}
future_t<> gate(event_t e) { co_await e; }
struct RArg { RSys* s; int i; uint64_t seed; int jobs; };
void runner(void* a)
{
	RArg* x = (RArg*)a; RSys* s = x->s; Rng r; r.seed(x->seed);
	local_scheduler_t ls; scheduler_t* me = this_scheduler(); s->tid[x->i] = vs::self(); s->sch[x->i].store(me, std::memory_order_release); s->up.add(1);
	while (s->up < s->n) vs::yield();
	int nt = r.below(3); std::vector<std::shared_ptr<Rx<int>>> tm; for (int i = 0; i < nt; ++i) { tm.push_back(std::make_shared<Rx<int>>(0)); int64_t t = vs::now() + r.range(0, 40) * 100000; vs::add_deadline(t); (void)me->timer()->add(tp(t), [f = tm.back()](bool c) { if (!c) f->add(1); }); }
	go gate(s->ev[(size_t)x->i]);                        // keeps it running until the spawners have finished
	for (int j = 0; j < x->jobs; ++j) { int t = s->next.add(1); go job(s, t, x->i, r.next()); }
	me->run_until_notask();
	vs::log(NOTASK, x->i);
	for (auto& f : tm) REQUIRE(*f == 1, "run_until_notask returned and a timer has fired %d times", (int)*f);
	REQUIRE(me->empty(), "run_until_notask returned and empty() is false");
	REQUIRE(!me->run_one_batch(), "run_until_notask returned with something ready");
	s->late.add(1);
	while (s->late < s->n) vs::yield();
}
void spawner(void* a)
{
	RArg* x = (RArg*)a; RSys* s = x->s; Rng r; r.seed(x->seed);
	while (s->up < s->n) vs::yield();
	for (int j = 0; j < x->jobs; ++j) {
		int to = r.below(s->n), t = s->next.add(1); scheduler_t* sc = s->sch[to].load(std::memory_order_acquire); uint64_t sd = r.next();
		vs::log(SPAWN, t, to);
		if (r.chance(50)) *sc + job(s, t, to, sd); else *sc + [s, t, to, sd]() { return job(s, t, to, sd); };
		if (r.chance(30)) vs::yield();
	}
	if (s->need.add(-1) == 1) for (auto& e : s->ev) e.signal();
}
void run_notask_mt()
{
	vs::kind_name = kn;
	RSys s; s.n = R.range(1, 3); s.ev.resize((size_t)s.n); for (auto& x : s.sch) x.store(nullptr, std::memory_order_relaxed);
	int ns = R.range(1, 2); s.need = ns; RArg args[8]; int k = 0;
	vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 30) * 100000);
	for (int i = 0; i < s.n; ++i) { args[k] = RArg{ &s, i, R.next(), R.range(0, 4) }; vs::spawn(&runner, &args[k], vs::EXTERNAL); ++k; }
	for (int i = 0; i < ns; ++i) { args[k] = RArg{ &s, i, R.next(), R.range(0, 8) }; vs::spawn(&spawner, &args[k], vs::EXTERNAL); ++k; }
	vs::join_all(); vs::time_jitter(0, 0);
	for (int t = 0; t < (int)s.next; ++t) REQ("S01", s.started[t] == 1 && s.ended[t] == 1, "run_until_notask returned with task %d unfinished (started %d, ended %d)", t, (int)s.started[t], (int)s.ended[t]);
}
// fairness: coroutines that only yield take turns
future_t<> yielder(Sys* s, int t, int n) { s->started[t] = 1; for (int i = 0; i < n; ++i) { vs::log(TURN, t, 0); co_await yield(); } vs::log(TURN, t, 1); s->ended[t] = 1; }
void run_turns()
{
	vs::kind_name = kn;
	Sys s; World w(1); s.w = &w; s.ev.resize(1);
	int ny = upto(2, 5, 40), nx = R.range(0, 2), nt = ny; std::vector<int> len; for (int i = 0; i < ny; ++i) len.push_back(R.range(2, 20));
	w.init = [&](int) { for (int i = 0; i < ny; ++i) go yielder(&s, i, len[(size_t)i]); };
	for (int i = 0; i < nx; ++i) { int base = nt; int k = upto(1, 4, 8); nt += k; w.ext.push_back([&s, &w, base, k, seed = R.next()] { Rng r; r.seed(seed); for (int j = 0; j < k; ++j) { if (r.chance(50)) vs::yield(); if (r.chance(30)) *w.s(0) + mt_gen(&s, base + j, r.below(8)); else *w.s(0) + yielder(&s, base + j, r.range(1, 10)); s.ev[0].signal(); } }); }
	w.start(); w.quiet();
	for (int i = 0; i < nt; ++i) REQ("S01", s.started[i] && s.ended[i], "task %d did not end", i);
	std::vector<std::vector<size_t>> at((size_t)nt);
	for (size_t i = 0; i < vs::log_size(); ++i) if (vs::log_at(i).kind == TURN) at[(size_t)vs::log_at(i).a].push_back(i);
	for (size_t a = 0; a < at.size(); ++a) for (size_t k = 0; k + 1 < at[a].size(); ++k) for (size_t b = 0; b < at.size(); ++b) {
		if (a == b || at[b].empty() || at[b].front() > at[a][k] || at[b].back() < at[a][k + 1]) continue;
		long n = 0; for (size_t x : at[b]) if (x > at[a][k] && x < at[a][k + 1]) ++n;
		REQ("S02", n >= 1, "coroutine %zu yielded and ran again before coroutine %zu, which was ready, had its turn", a, b);
		REQ("S02", n <= 1, "coroutine %zu had %ld turns during one of coroutine %zu", b, n, a); cover("turns compared");
	}
	w.finish();
}
// binding of schedulers to threads
struct BArg { uint64_t seed; OwnScheduler* shared; };
void binds(Rng& r, scheduler_t* bound, OwnScheduler* other, int depth)
{
	scheduler_t* g = &scheduler_t::g_scheduler; auto want = [&](scheduler_t* b) { return b ? b : g; };
	REQ("S04", this_scheduler() == want(bound), "this_scheduler() is not the scheduler bound to this thread");
	auto ran = std::make_shared<Rx<int>>(0), fired = std::make_shared<Rx<int>>(0); int tasks = 0, timers = 0;   // what the bound scheduler has to do must not matter
	if (bound && bound != other) {
		if (r.chance(50)) { ++timers; (void)bound->timer()->add(dns(3600000 * MS), [fired](bool c) { if (c) fired->add(1); }); cover("timer pending around a scope"); }
		if (r.chance(40)) { ++tasks; go [](std::shared_ptr<Rx<int>> x, int k) -> future_t<> { while (k-- > 0) co_await yield(); x->add(1); }(ran, r.below(4)); if (r.chance(50)) (void)bound->run_one_batch(); cover("task ready around a scope"); }
	}
	for (int i = r.below(4); i > 0 && depth < 4; --i) {
		int q = r.below(3);
		if (q == 0) {
			local_scheduler_t ls; scheduler_t* now = this_scheduler();
			if (bound) REQ("S04", now == bound, "local_scheduler_t replaced the bound scheduler"); else { REQ("S04", now != g && now != nullptr, "local_scheduler_t bound nothing"); cover("local scheduler made"); }
			if (!bound) { auto d = std::make_shared<Rx<int>>(0); go [](std::shared_ptr<Rx<int>> x) -> future_t<> { co_await yield(); *x = 1; }(d); now->run_until_notask(); REQ("S01,S04", *d == 1, "a task on a local scheduler did not run"); }
			binds(r, now, other, depth + 1);
		} else if (q == 1 && !bound) {
			OwnScheduler mine; REQ("S04", this_scheduler() == &mine, "a scheduler made on a thread without one is not bound"); binds(r, &mine, other, depth + 1); cover("scheduler object bound");
		} else if (q == 1) { OwnScheduler mine; REQ("S04", this_scheduler() == bound, "another scheduler object replaced the bound one"); binds(r, bound, other, depth + 1); cover("second scheduler object"); }
		else if (bound) { local_scheduler_t ls(*other); REQ("S04", this_scheduler() == bound, "local_scheduler_t(s) replaced the bound scheduler"); binds(r, bound, other, depth + 1); }
		REQ("S04", this_scheduler() == want(bound), "the binding is not what it was before the scope");
	}
	if (timers) bound->timer()->clear();
	if (tasks) while (bound->run_one_batch()) {}
	REQ("S01,S04", *ran == tasks && *fired == timers, "of %d tasks %d ran, of %d timers %d were canceled", tasks, (int)*ran, timers, (int)*fired);
}
void binder(void* a) { BArg* x = (BArg*)a; Rng r; r.seed(x->seed); vs::log(START, (int64_t)r.next() & 0xffff); if (r.chance(30)) { local_scheduler_t ls(*x->shared); REQ("S04", this_scheduler() == x->shared, "local_scheduler_t(s) did not bind"); binds(r, x->shared, x->shared, 1); cover("bound to a given one"); } else binds(r, nullptr, x->shared, 0); }
void run_bind()
{
	vs::kind_name = kn;
	OwnScheduler own; scheduler_t* was = this_scheduler(); BArg args[4]; int n = R.range(1, 3);
	for (int i = 0; i < n; ++i) { args[i] = BArg{ R.next(), &own }; vs::spawn(&binder, &args[i], vs::EXTERNAL); }
	vs::join_all();
	REQ("S04", this_scheduler() == was && was == &scheduler_t::g_scheduler, "the main thread's scheduler changed");
}
// futures of awaitables as tasks, spawned by one thread and set by another
template<class T> struct Fv { static void set(awaitable_t<T>& a) { a.set_value(Mk<T>::make(3)); } };
template<> struct Fv<void> { static void set(awaitable_t<>& a) { a.set_value(); } };
struct Oops { Obj o; };
struct MFut { std::function<void(scheduler_t*)> spawn; std::function<void()> set; std::atomic<int> spawned{ 0 }; bool race = false; };
template<class T> void make_fut(MFut& x) { auto a = std::make_shared<awaitable_t<T>>(); auto f = std::make_shared<std::optional<future_t<T>>>(a->get_future()); bool bad = R.chance(30); x.spawn = [f](scheduler_t* s) { *s + std::move(**f); f->reset(); }; x.set = [a, bad]() { if (bad) a->throw_exception(Oops{ Obj(3) }); else Fv<T>::set(*a); }; }
void run_fut_mt()
{
	vs::kind_name = kn; World w(R.range(1, 2)); std::deque<MFut> v; int n = upto(1, 6, 40); Rx<int> ran(0); int want = 0; for (int i = 0; i < n; ++i) { v.emplace_back(); v.back().race = FUT_RACE && R.chance(40); switch (R.below(3)) { case 0: make_fut<void>(v.back()); break; case 1: make_fut<long>(v.back()); break; default: make_fut<Obj>(v.back()); break; } }
	std::vector<int> on; for (int i = 0; i < n; ++i) on.push_back(R.below(w.n)); int from = R.below(3); uint64_t sd = R.next(); want = R.below(3);
	w.init = [&](int i) { if (i == 0) for (int k = 0; k < want; ++k) go [&ran]() -> future_t<> { co_await yield(); ran.add(1); }; if (from == 0) for (int k = 0; k < n; ++k) if (on[(size_t)k] == i) { v[(size_t)k].spawn(w.s(i)); vs::log(SPAWN, k, i); v[(size_t)k].spawned.store(1, std::memory_order_release); } };
	if (from) w.ext.push_back([&, sd] { Rng r; r.seed(sd + 9); for (int k = 0; k < n; ++k) { v[(size_t)k].spawn(w.s(on[(size_t)k])); vs::log(SPAWN, k, on[(size_t)k]); v[(size_t)k].spawned.store(1, std::memory_order_release); if (r.chance(30)) vs::yield(); } });
	w.ext.push_back([&, sd] { Rng r; r.seed(sd); for (int k = 0; k < n; ++k) { auto& f = v[(size_t)k]; if (!f.race) while (!f.spawned.load(std::memory_order_acquire)) vs::yield(); if (r.chance(30)) vs::yield(); f.set(); vs::log(END, k); } });
	w.start(); w.quiet(); w.finish(); REQ("S01", ran == want, "%d of %d tasks ended", (int)ran, want);
}
#endif
} // namespace

#if PART == 1
FAMILY("S01,S02,S03,S04,L01", sch_st, 8, false) { run_st(); }
FAMILY("S01,S02,L01", sch_notask, 2, false) { run_notask(); }
FAMILY("S01,L01", sch_fut_st, 2, false) { run_fut_st(); }
#else
FAMILY("S01,S03,S04,L01,R01", sch_mt_via, 4, true) { run_via(); }
FAMILY("S01,S03,L01,R01", sch_mt_notask, 4, true) { run_notask_mt(); }
FAMILY("S02,R01", sch_mt_turns, 4, true) { run_turns(); }
FAMILY("S01,L01,R01", sch_mt_fut, 2, true) { run_fut_mt(); }
FAMILY("S04", sch_mt_bind, 2, true) { run_bind(); }
#endif
