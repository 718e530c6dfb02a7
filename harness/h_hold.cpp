// What stays behind (L01): primitives and schedulers live on while rounds of tasks come and go. After each round - its tasks
// are done, its schedulers idle, its timers over - the number of allocated blocks must be what it was before.
#include "mon.h"
using namespace mon;

namespace {
enum { ROUND = 1, OP, DONE, BALANCE };
const char* kn(uint32_t k) { static const char* n[] = {"?", "ROUND", "OP", "DONE", "BALANCE"}; return k < 5 ? n[k] : "?"; }
enum Kind { EV_OUT, EV_FOR, EV_ALL_OUT, EV_ALL, MX_OUT, MX_LOCK, MX_TRY, MX_SET, CH, CH_FULL, SLEEP, SLEEP_CANCEL, TIMER, ANY_LATE, ALL, STOP, VIA, GEN, LAMBDA, AWAITABLE, THROW, YIELDS, FUTURE_DROP, NK };
const char* const name[NK] = { "an event wait that times out", "an event wait that is signalled", "a wait_all that times out", "a wait_all that is signalled", "a lock that times out", "a lock", "a try_lock", "several locks", "a channel", "a full channel", "a sleep", "a cancelled sleep", "timers", "a when_any with losers", "a when_all", "stop callbacks", "a move to another scheduler", "a generator", "a lambda", "an awaitable", "an exception", "yields", "an unused future" };
struct Sys {
	OwnScheduler* two = nullptr; scheduler_t* s[2] = {}; event_t ev[7]; mutex_t mx[3]; channel_t<Obj> ch{ 3 }; channel_t<Obj> ch0{ 0 }; stop_source src; int left = 0; int64_t last = 0; std::string who; long values = 0;
	void due(int64_t t) { if (t > last) last = t; }
};
struct Boom { Obj o; explicit Boom(long v) : o(v) {} };
struct Leave { Sys* s; int k; Obj o; Leave(Sys* q, int i) : s(q), k(i), o(i) { ++s->left; } ~Leave() { o.check(); vs::log(DONE, k); --s->left; } };
generator_t<Obj> gen(Obj a, int n) { for (int i = 0; i < n; ++i) co_yield Obj(a.get() + i); co_return Obj(-5); }
future_t<Obj> sub(Obj a, int n) { for (; n > 0; --n) co_await yield(); co_return Obj(a.get() + 1); }
future_t<> subv(Obj a, int n) { for (; n > 0; --n) co_await yield(); a.check(); }
future_t<Obj> thrower(Obj a, int n) { for (; n > 0; --n) co_await yield(); throw Boom(a.get()); co_return a; }
future_t<> signal_later(Sys* s, int i, int n) { Leave l(s, 100); for (; n > 0; --n) co_await yield(); s->ev[i].signal(); }
future_t<> reader(Sys* s, bool zero, int n) { Leave l(s, 101); for (; n > 0; --n) co_await yield(); Obj v = co_await (zero ? s->ch0 : s->ch).read(); s->values += v.get(); }
future_t<> setter(Sys* s, awaitable_t<Obj> a, int n, bool bad) { Leave l(s, 102); for (; n > 0; --n) co_await yield(); if (bad) a.throw_exception(Boom(4)); else a.set_value(Obj(4)); }
int64_t later(Sys* s, Rng& g) { int64_t d = (int64_t)g.range(-1, 6) * MS + g.below(50); s->due(vs::now() + d); return d; }
future_t<> one(Sys* s, int k, Obj par, uint64_t seed)
{
	Leave l(s, k); Rng g; g.seed(seed); vs::log(OP, k); int n = g.below(4); int on = 0;
	for (int q = g.below(3); q > 0; --q) co_await yield();
	switch (k) {
	case EV_OUT: { int64_t d = later(s, g); bool r; if (g.chance(50)) r = co_await s->ev[0].wait_for(dns(d)); else r = co_await s->ev[0].wait_until(tp(vs::now() + d)); REQUIRE(!r, "an event that is never signalled was"); break; }
	case EV_FOR: { *s->s[g.below(2)] + signal_later(s, 1, n); int64_t d = (int64_t)1000 * MS; s->due(vs::now() + d); if (g.chance(50)) (void)co_await s->ev[1].wait_for(dns(d)); else (void)co_await s->ev[1]; break; }
	case EV_ALL_OUT: { std::vector<event_t> v{ s->ev[3], s->ev[0] }; if (g.chance(50)) v.push_back(s->ev[4]); if (g.chance(50)) *s->s[0] + signal_later(s, 3, n); int64_t d = later(s, g); bool r = co_await event_t::wait_all_for(dns(d), v); REQUIRE(!r, "wait_all over an event that is never signalled"); s->ev[3].reset(); break; }
	case EV_ALL: { std::vector<event_t> v{ s->ev[5], s->ev[6] }; *s->s[g.below(2)] + signal_later(s, 5, n); *s->s[g.below(2)] + signal_later(s, 6, g.below(4)); int64_t d = (int64_t)1000 * MS; s->due(vs::now() + d); if (g.chance(50)) (void)co_await event_t::wait_all_for(dns(d), v); else (void)co_await event_t::wait_all(v); break; }
	case MX_OUT: { int64_t d = later(s, g); bool r; if (g.chance(50)) r = co_await s->mx[0].try_lock_for(dns(d)); else r = co_await s->mx[0].try_lock_until(tp(vs::now() + d)); REQUIRE(!r, "a mutex that is held was locked"); break; }
	case MX_LOCK: { auto a = co_await s->mx[1].lock(); for (; n > 0; --n) co_await yield(); break; }
	case MX_TRY: { if (co_await s->mx[1].try_lock()) { for (; n > 0; --n) co_await yield(); co_await s->mx[1].unlock(); } int64_t d = later(s, g); if (co_await s->mx[1].try_lock_for(dns(d))) { co_await yield(); co_await s->mx[1].unlock(); } break; }
	case MX_SET: { if (g.chance(50)) { auto a = co_await mutex_t::lock(s->mx[1], s->mx[2]); for (; n > 0; --n) co_await yield(); } else { co_await mutex_t::lock(adopt_manual_unlock, s->mx[2], s->mx[1]); for (; n > 0; --n) co_await yield(); co_await mutex_t::unlock(s->mx[1], s->mx[2]); } break; }
	case CH: { bool zero = g.chance(50); *s->s[g.below(2)] + reader(s, zero, n); co_await (zero ? s->ch0 : s->ch).write(Obj(3)); break; }
	case CH_FULL: { for (int i = 0; i < 6; ++i) *s->s[g.below(2)] + reader(s, false, 4 + g.below(4)); for (int i = 0; i < 6; ++i) co_await (s->ch << Obj(i)); break; }
	case SLEEP: { int64_t d = later(s, g); if (g.chance(50)) co_await sleep_for(dns(d)); else co_await sleep_until(tp(vs::now() + d), *s->s[0]); break; }
	case SLEEP_CANCEL: { int64_t d = (int64_t)1000 * MS; s->due(vs::now() + d); auto f = sleep_for(dns(d), *s->s[1]); s->s[1]->timer()->clear(); bool c = false; try { co_await f; } catch (const canceled_exception&) { c = true; } REQUIRE(c, "a cancelled sleep ended normally"); break; }
	case TIMER: { auto tm = s->s[g.below(2)]->timer(); int64_t d = later(s, g); Obj cap(9); std::vector<timer_handler> h; for (; n >= 0; --n) h.push_back(tm->add_handler(dns(d), [cap](bool) { cap.check(); })); co_await yield(); for (auto& x : h) if (g.chance(50)) x.stop(); (void)tm->add(dns(d), [cap](bool) { cap.check(); }); break; }
	case ANY_LATE: { auto r = co_await when_any(*s->s[g.below(2)], sub(Obj(1), g.below(5)), subv(Obj(1), g.below(5)), sub(Obj(1), g.below(5))); REQUIRE(r.first >= 0 && r.first < 3, "when_any names no sub-task"); break; }
	case ALL: { auto r = co_await when_all(*s->s[g.below(2)], sub(Obj(1), g.below(5)), subv(Obj(2), g.below(5)), [] { return sub(Obj(5), 2); }); REQUIRE(std::get<0>(r).get() == 2 && std::get<2>(r).get() == 6, "when_all gives another result"); break; }
	case STOP: { stop_token t = s->src.get_token(); stop_callback<std::function<void()>> a(t, [o = Obj(1)] { o.check(); }); task_t* me = librf_current_task(); REQUIRE(me, "a task without task"); stop_token mine = me->get_stop_token(); stop_callback<std::function<void()>> b(mine, [o = Obj(2)] { o.check(); }); co_await yield(); if (g.chance(50)) me->request_stop(); co_await yield(); break; }
	case VIA: { for (; n >= 0; --n) { on ^= 1; co_await via(s->s[on]); par.check(); } break; }
	case GEN: { long v = 0; for (auto& x : gen(Obj(3), n)) v += x.get(); s->values += v; *s->s[g.below(2)] + gen(Obj(4), n); { auto unused = gen(Obj(1), 3); (void)unused.begin(); } break; }
	case LAMBDA: { *s->s[g.below(2)] + [s, n, o = Obj(8)]() -> future_t<> { Leave x(s, 103); for (int i = 0; i < n; ++i) co_await yield(); o.check(); }; break; }
	case AWAITABLE: { awaitable_t<Obj> a; auto f = a.get_future(); bool bad = g.chance(40), got = false; *s->s[g.below(2)] + setter(s, a, n, bad); for (int q = g.below(4); q > 0; --q) co_await yield(); try { Obj v = co_await f; } catch (const Boom&) { got = true; } REQUIRE(got == bad, "another result arrived"); break; }
	case THROW: { bool got = false; try { (void)co_await thrower(Obj(7), n); } catch (const Boom& b) { got = b.o.get() == 7; } REQUIRE(got, "an exception did not arrive"); if (g.chance(30)) *s->s[g.below(2)] + thrower(Obj(6), n); break; }
	case FUTURE_DROP: { awaitable_t<Obj> a; { auto f = a.get_future(); (void)f; } a.set_value(Obj(3)); awaitable_t<> b; auto f2 = b.get_future(); if (g.chance(50)) b.throw_exception(Boom(2)); *s->s[0] + sub(Obj(2), n); break; }
	default: for (; n >= 0; --n) co_await yield(); break;
	}
	REQUIRE(par.get() == k, "a parameter changed");
}
void settle_both(Sys* s)
{
	for (int q = 0, n = 0; q < 2; ++n) { REQUIRE(n < 5000, "the schedulers are never idle"); ++q; for (auto* x : s->s) if (x->run_one_batch()) q = 0; }
}
}

FAMILY("L01,S01,T01,T02", hold_st, 4, false)
{
	vs::kind_name = kn; OwnScheduler two; Sys s; s.two = &two; s.s[0] = G(); s.s[1] = &two; int me = 0;
	std::vector<int> menu; int kinds = R.range(1, 5); for (int i = 0; i < kinds; ++i) menu.push_back(R.below(NK));
	for (int k : menu) cover(name[k]);
	REQUIRE(s.mx[0].try_lock(&me), "a free mutex could not be locked"); int per = upto(1, 5, 25); constexpr int ROUNDS = 10; int64_t b[ROUNDS] = {}, top = 0; int grown = 0;
	for (int r = 0; r < ROUNDS; ++r) {
		vs::log(ROUND, r);
		for (int k : menu) for (int i = r < 2 ? per : 1 + R.below(per); i > 0; --i) *s.s[0] + one(&s, k, Obj(k), R.next());
		for (int n = 0; ; ++n) {
			REQUIRE(n < 200, "%d tasks do not come to an end", s.left); settle_both(&s);
			if (s.left == 0 && vs::now() > s.last) break;
			vs::set_now(vs::now() + (s.left == 0 ? 2000 * MS : R.chance(50) ? MS : 5 * MS));
		}
		settle_both(&s);
		REQ("S01,L01", s.s[0]->empty() && s.s[1]->empty(), "a task is counted although all have ended"); REQ("T01,T02,L01", s.s[0]->timer()->empty() && s.s[1]->timer()->empty(), "a timer is pending although all are over");
		drop_exceptions(); b[r] = vs::alloc_balance(); vs::log(BALANCE, b[r]);
		if (b[r] > top) { top = b[r]; if (r >= 3) ++grown; }      // what is allocated once and kept (tables, buffers) does not go on growing
		REQ("L01", grown < 4, "%ld blocks are allocated after round %d, %ld after the third: something of finished tasks lives on", (long)b[r], r, (long)b[2]);
	}
	s.mx[0].unlock(&me);
}
