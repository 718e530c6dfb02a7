// when_all (W01) and when_any (W02).
#include "mon.h"
#include <list>
#include <any>
using namespace mon;

namespace {
enum { CALL = 1, AWAIT, BEGIN, DONE, SETV, RESULT, ARMED, VIA };
const char* kn(uint32_t k) { static const char* n[] = {"?", "CALL", "AWAIT", "BEGIN", "DONE", "SET", "RESULT", "ARMED", "VIA"}; return k < 9 ? n[k] : "?"; }
constexpr int MAXK = 24;
struct Sys;
// one when_all or when_any with its sub-tasks
struct Round {
	int id = 0; bool any = false; int n = 0; Sys* s = nullptr; scheduler_t* sch = nullptr; int on = 0;
	Rx<int> open, armed, awaited, ended;
	struct Slot { long v = 0; bool is_set = false; Rx<int> done, set, body, moved; Rx<int> from, to; awaitable_t<long> aw; awaitable_t<> av; event_t ev; channel_t<long> ch{ 1 }; int kind = 0; int posted = 0; uint64_t seed = 0; long data = 0; };
	std::deque<Slot> k;
};
struct Sys {
	World* w = nullptr; std::vector<scheduler_t*> sch; std::vector<std::unique_ptr<OwnScheduler>> own; std::deque<Round> r; Rx<int> stamp, nr, awaiters; Rx<int> tid[4]; bool mt = false; uint64_t batch = 0;
	int tick() { return 1 + stamp.add(1); }
	scheduler_t* at(int i) { return w ? w->s(i) : sch[(size_t)i]; } int nsch() { return w ? w->n : (int)sch.size(); }
};
enum { B_LONG, B_VOID, B_OBJ, B_BOOL };
enum { AW_LONG = 4, AW_VOID, EVENT, CHAN };
// completes sub-task k from outside
void complete(Round* r, int i)
{
	auto& k = r->k[(size_t)i]; if (k.kind < AW_LONG || k.set.add(1) != 0) return;
	k.data = k.v + 5;
	int st = r->s->tick(); bool armed = r->armed; vs::log(SETV, r->id, i);
	k.from = r->s->mt ? (armed ? st : 0) : (r->armed ? st : r->open ? 0 : -1); k.done = 1;
	if (k.kind == AW_LONG) { awaitable_t<long> a = k.aw; a.set_value(k.v); } else if (k.kind == AW_VOID) { awaitable_t<> a = k.av; a.set_value(); } else if (k.kind == CHAN) { auto c = k.ch; (void)c.write(k.v); } else { event_t e = k.ev; e.signal(); }
	if (k.to == 0) k.to = r->s->tick();
}
void body_done(Round* r, int i) { auto& k = r->k[(size_t)i]; k.data = k.v + 5; REQUIRE(k.body == 1, "sub-task %d ran %d times", i, (int)k.body); int st = r->s->tick(); k.from = r->armed ? st : 0; REQUIRE(k.done.add(1) == 0, "sub-task %d ended twice", i); vs::log(DONE, r->id, i); }
future_t<> steps(Round* r, int i)
{
	auto& k = r->k[(size_t)i]; Rng g; g.seed(k.seed); k.body.add(1); vs::log(BEGIN, r->id, i); int n = g.below(4);
	for (int j = 0; j < n; ++j) {
		int q = g.below(100);
		if (q < 50) co_await yield();
		else if (q < 75) { int64_t t = vs::now() + g.range(0, 4) * 200000; vs::add_deadline(t); co_await sleep_until(tp(t), *librf_current_scheduler()); vs::add_deadline(t); }
		else if (q < 90) { k.moved = 1; scheduler_t* to = r->s->at(g.below(r->s->nsch())); vs::log(VIA, r->id, i); co_await via(to); cover("sub-task moved"); }
		else co_await [](int m) -> future_t<> { for (int x = 0; x < m; ++x) co_await yield(); }(g.below(3));
	}
}
future_t<long> b_long(Round* r, int i) { co_await steps(r, i); body_done(r, i); co_return r->k[(size_t)i].v; }
future_t<> b_void(Round* r, int i) { co_await steps(r, i); body_done(r, i); }
future_t<bool> b_bool(Round* r, int i) { co_await steps(r, i); body_done(r, i); co_return r->k[(size_t)i].v % 2 != 0; }
future_t<Obj> b_obj(Round* r, int i) { co_await steps(r, i); Obj o(r->k[(size_t)i].v); body_done(r, i); co_return std::move(o); }
void slot(Round* r, int i, int kind) { auto& k = r->k[(size_t)i]; k.kind = kind; k.v = r->id * 100 + i * 7 + 3; if (kind == AW_LONG && R.chance(20)) k.posted = 1; if (kind >= AW_LONG && R.chance(15)) k.posted = 1; k.seed = (uint64_t)(r->id * MAXK + i) * 7919 + (uint64_t)(uintptr_t)R.next(); }
// sub-tasks of each kind, as a future or as a function
#define F_LONG(i) b_long(r, i)
#define F_VOID(i) b_void(r, i)
#define F_OBJ(i) b_obj(r, i)
#define F_BOOL(i) b_bool(r, i)
#define F_CH(i) r->k[(size_t)i].ch.read()
#define F_CHL(i) [r, j_ = i] { return r->k[(size_t)j_].ch.read(); }
#define F_AW(i) r->k[(size_t)i].aw.get_future()
#define F_AV(i) r->k[(size_t)i].av.get_future()
#define F_EV(i) r->k[(size_t)i].ev.wait()
#define L_(f, i, T) [r, j_ = i, o = Obj(r->id)]() -> T { REQUIRE(o.get() == r->id, "a captured object changed"); return f(j_); }
#define LC_(f, i, T) [r, o = Obj(r->id)]() -> T { auto v = co_await f(i); r->k[(size_t)i].from = r->armed ? r->s->tick() : 0; r->k[(size_t)i].to = -1; REQUIRE(o.get() == r->id, "a captured object of a running lambda changed"); co_return v; }

long val(long x) { return x; } long val(const Obj& o) { return o.get(); } long val(bool b) { return b ? -77 : -78; } long val(const decltype(std::ignore)&) { return -79; }
void check_item(Round* r, int i, long got, bool isvoid)
{
	auto& k = r->k[(size_t)i]; long want = isvoid ? -79 : k.kind == EVENT ? -77 : k.kind == B_BOOL ? (k.v % 2 != 0 ? -77 : -78) : k.v;
	REQUIRE(k.done == 1, "when %d completed and sub-task %d has not", r->id, i);
	REQUIRE(got == want, "element %d of the result is %ld, must be %ld", i, got, want);
	REQUIRE(k.data == k.v + 5, "what sub-task %d wrote is not visible", i);
}
template<class... T, size_t... I> void check_tuple(Round* r, std::tuple<T...>& t, std::index_sequence<I...>) { (check_item(r, (int)I, val(std::get<I>(t)), r->k[I].kind == B_VOID || r->k[I].kind == AW_VOID), ...); }
void ended(Round* r) { REQUIRE(r->ended.add(1) == 0, "when %d resumed its awaiter twice", r->id); vs::log(RESULT, r->id, r->n); }
template<class... T> void check(Round* r, std::tuple<T...>& t) { ended(r); REQUIRE((int)sizeof...(T) == r->n, "size"); check_tuple(r, t, std::index_sequence_for<T...>()); cover(r->n == 0 ? "when_all of nothing" : "when_all"); }
template<class T> void check(Round* r, std::vector<T>& t) { ended(r); REQUIRE((int)t.size() == r->n, "%zu results of %d sub-tasks", t.size(), r->n); for (int i = 0; i < r->n; ++i) { T x = t[(size_t)i]; check_item(r, i, val(x), r->k[(size_t)i].kind == B_VOID || r->k[(size_t)i].kind == AW_VOID); } cover(r->n == 0 ? "when_all of nothing" : "when_all of a range"); }
void check(Round* r, when_any_pair& p)
{
	ended(r); REQUIRE(p.first >= -1 && p.first < r->n, "index %ld of %d", (long)p.first, r->n);
	if (r->n == 0) { REQUIRE(p.first == -1 && !p.second.has_value(), "when_any of nothing has a result"); cover("when_any of nothing"); return; }
	REQUIRE(p.first >= 0, "when_any completed without index"); int i = (int)p.first; auto& k = r->k[(size_t)i];
	REQUIRE(k.done == 1, "when_any reports sub-task %d, which has not completed", i); REQUIRE(k.data == k.v + 5, "what sub-task %d wrote is not visible", i);
	long got = -1000; if (!p.second.has_value()) got = -79; else if (auto* a = std::any_cast<long>(&p.second)) got = *a; else if (auto* o = std::any_cast<Obj>(&p.second)) got = o->get(); else if (auto* b = std::any_cast<bool>(&p.second)) got = *b ? -77 : -78;
	long want = k.kind == B_VOID || k.kind == AW_VOID ? -79 : k.kind == EVENT ? -77 : k.kind == B_BOOL ? (k.v % 2 != 0 ? -77 : -78) : k.v;
	REQUIRE(got == want, "the value of when_any is %ld, sub-task %d gave %ld", got, i, want);
	for (int j = 0; j < r->n; ++j) {
		auto& q = r->k[(size_t)j]; if (j == i || !q.done) continue;
		if (!r->s->mt) { if (q.moved || k.moved || (q.kind >= AW_LONG && k.kind >= AW_LONG && q.from <= 0 && k.from <= 0)) continue; REQUIRE(q.from >= k.from, "when_any reports sub-task %d, sub-task %d completed before it", i, j); cover("several completed"); }
		else if (q.kind >= AW_LONG && k.kind >= AW_LONG && q.from > 0 && q.to > 0 && k.to >= 0 && k.from > 0) { REQUIRE(q.to >= k.from, "when_any reports sub-task %d, sub-task %d had completed before it began to", i, j); cover("several completed"); }
	}
	cover("when_any");
}
future_t<> armer(Round* r) { for (int i = 0; i < 4; ++i) co_await yield(); r->armed = 1; vs::log(ARMED, r->id); }
void call(Round* r) { r->open = 1; vs::log(CALL, r->id, r->n); for (int i = 0; i < r->n; ++i) if (r->k[(size_t)i].kind >= AW_LONG && r->k[(size_t)i].posted) { } }
// given: the scheduler is passed; late: awaited some time after the call
#define DO(w, ...) do { for (int i_ = 0; i_ < r->n; ++i_) if (r->k[(size_t)i_].posted) { r->k[(size_t)i_].posted = 0; complete(r, i_); cover("complete before the call"); } \
	call(r); if (given) { auto x_ = w(*r->sch, ##__VA_ARGS__); if (r->s->mt) *r->sch + armer(r); for (int y_ = 0; y_ < late; ++y_) co_await yield(); r->awaited = 1; vs::log(AWAIT, r->id, r->ended); \
		uint64_t b0_ = r->s->batch; auto v_ = co_await x_; if (r->n == 0 && !r->s->mt) REQUIRE(b0_ == r->s->batch, "nothing to wait for, and it suspended"); check(r, v_); } \
	else { if (r->s->mt) *r->sch + armer(r); r->awaited = 1; auto v_ = co_await w(__VA_ARGS__); check(r, v_); } } while (0)
template<class C> future_t<> over_all(Round* r, C& c, bool given, int late, bool iter)
{
	if (iter) DO(when_all, std::begin(c), std::end(c)); else DO(when_all, c);
}
template<class C> future_t<> over_any(Round* r, C& c, bool given, int late, bool iter)
{
	if (iter) DO(when_any, std::begin(c), std::end(c)); else DO(when_any, c);
}
template<class C> future_t<> over(Round* r, C& c, bool given, int late, bool iter) { if (r->any) co_await over_any(r, c, given, late, iter); else if constexpr (requires { std::end(c) - std::begin(c); }) co_await over_all(r, c, given, late, iter); }
future_t<> variadic_all(Round* r, int shape, bool given, int late)
{
	switch (shape) {
	case 0: DO(when_all); break;
	case 1: DO(when_all, F_LONG(0)); break;
	case 2: DO(when_all, F_OBJ(0), F_VOID(1)); break;
	case 3: DO(when_all, L_(F_LONG, 0, future_t<long>), F_LONG(1), F_EV(2)); break;
	case 4: DO(when_all, L_(F_AV, 0, future_t<>), F_AW(1), F_OBJ(2), LC_(F_OBJ, 3, future_t<Obj>)); break;
	case 6: DO(when_all, F_CH(0), F_BOOL(1), L_(F_BOOL, 2, future_t<bool>), F_CH(3)); break;
	default: DO(when_all, F_LONG(0), F_AW(1), L_(F_VOID, 2, future_t<>), F_EV(3), LC_(F_AW, 4, future_t<long>), F_AV(5)); break;
	}
}
future_t<> variadic_any(Round* r, int shape, bool given, int late)
{
	switch (shape) {
	case 0: DO(when_any); break;
	case 1: DO(when_any, F_LONG(0)); break;
	case 2: DO(when_any, F_OBJ(0), F_VOID(1)); break;
	case 3: DO(when_any, L_(F_LONG, 0, future_t<long>), F_LONG(1), F_EV(2)); break;
	case 4: DO(when_any, L_(F_AV, 0, future_t<>), F_AW(1), F_OBJ(2), LC_(F_OBJ, 3, future_t<Obj>)); break;
	case 6: DO(when_any, F_CHL(0), F_BOOL(1), L_(F_BOOL, 2, future_t<bool>), F_CHL(3)); break;
	default: DO(when_any, F_LONG(0), F_AW(1), L_(F_VOID, 2, future_t<>), F_EV(3), LC_(F_AW, 4, future_t<long>), F_AV(5)); break;
	}
}
const int shapes[7][7] = { { 0 }, { 1, B_LONG }, { 2, B_OBJ, B_VOID }, { 3, B_LONG, B_LONG, EVENT }, { 4, AW_VOID, AW_LONG, B_OBJ, B_OBJ }, { 6, B_LONG, AW_LONG, B_VOID, EVENT, AW_LONG, AW_VOID }, { 4, CHAN, B_BOOL, B_BOOL, CHAN } };
struct Plan { int form; int shape; bool given; int late; bool iter; };
Plan prepare(Sys* s, bool any)
{
	int id = (int)s->r.size(); s->r.emplace_back(); Round* r = &s->r.back(); r->id = id; r->any = any; r->s = s;
	Plan p; p.form = R.below(7); if (p.form == 5 && !any) p.form = 6; p.given = R.chance(60); p.late = R.chance(50) ? 0 : R.range(1, 12); p.iter = R.chance(40);
	if (p.form == 0) { p.shape = R.below(7); r->n = shapes[p.shape][0]; r->k.resize((size_t)r->n); for (int i = 0; i < r->n; ++i) slot(r, i, shapes[p.shape][i + 1]); }
	else { p.shape = 0; r->n = big && R.chance(50) ? R.range(30, 160) : R.chance(15) ? R.range(6, MAXK) : R.below(6); r->k.resize((size_t)r->n); for (int i = 0; i < r->n; ++i) { int kind = p.form == 1 ? (R.chance(50) ? B_LONG : AW_LONG) : p.form == 2 ? (R.chance(50) ? B_VOID : AW_VOID) : p.form == 3 ? (R.chance(50) ? B_LONG : AW_LONG) : p.form == 4 ? B_OBJ : p.form == 6 ? B_BOOL : AW_LONG; slot(r, i, kind); } }
	return p;
}
future_t<> do_round(Round* r, Plan p)
{
	if (p.form == 0) { if (r->any) co_await variadic_any(r, p.shape, p.given, p.late); else co_await variadic_all(r, p.shape, p.given, p.late); }
	else if (p.form == 1) { std::vector<future_t<long>> v; for (int i = 0; i < r->n; ++i) if (r->k[(size_t)i].kind == B_LONG) v.push_back(F_LONG(i)); else v.push_back(F_AW(i)); co_await over(r, v, p.given, p.late, p.iter); }
	else if (p.form == 2) { std::vector<future_t<>> v; for (int i = 0; i < r->n; ++i) if (r->k[(size_t)i].kind == B_VOID) v.push_back(F_VOID(i)); else v.push_back(F_AV(i)); co_await over(r, v, p.given, p.late, p.iter); }
	else if (p.form == 3) { std::vector<std::function<future_t<long>()>> v; for (int i = 0; i < r->n; ++i) if (r->k[(size_t)i].kind == B_LONG) v.push_back(L_(F_LONG, i, future_t<long>)); else v.push_back(L_(F_AW, i, future_t<long>)); co_await over(r, v, p.given, p.late, p.iter); }
	else if (p.form == 4) { std::deque<future_t<Obj>> v; for (int i = 0; i < r->n; ++i) v.push_back(F_OBJ(i)); co_await over(r, v, p.given, p.late, p.iter); }
	else if (p.form == 6) { std::vector<future_t<bool>> v; for (int i = 0; i < r->n; ++i) v.push_back(F_BOOL(i)); co_await over(r, v, p.given, p.late, p.iter); }
	else { std::list<future_t<long>> v; for (int i = 0; i < r->n; ++i) v.push_back(F_AW(i)); co_await over(r, v, p.given, p.late, p.iter); }
}
future_t<> awaiter(Sys* s, int on, std::vector<std::pair<int, Plan>> plans)
{
	for (auto& p : plans) {
		Round* r = &s->r[(size_t)p.first]; r->on = on; scheduler_t* mine = s->at(on);
		if (!p.second.given) r->sch = mine;
		co_await do_round(r, p.second);
		REQ("W01,W02,S03", s->mt ? s->tid[on] == vs::self() : true, "the awaiter was resumed on another thread"); (void)mine;
	}
	s->awaiters.add(-1);
}
std::vector<std::vector<std::pair<int, Plan>>> plan(Sys* s, bool any, int na)
{
	std::vector<std::vector<std::pair<int, Plan>>> all;
	for (int a = 0; a < na; ++a) { all.emplace_back(); int n = R.range(1, 3); for (int i = 0; i < n; ++i) { Plan p = prepare(s, any); all.back().emplace_back((int)s->r.size() - 1, p); } }
	s->awaiters = na; return all;
}
#if PART == 1
void run_st(bool any)
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.sch.push_back(G()); if (R.chance(40)) { s.own.push_back(std::make_unique<OwnScheduler>()); s.sch.push_back(s.own[0].get()); }
	int na = R.range(1, 3); auto all = plan(&s, any, na); for (auto& r : s.r) r.sch = s.at(R.below(s.nsch()));
	for (auto& p : all) { int on = R.below(s.nsch()); *s.at(on) + awaiter(&s, on, p); }
	for (int g = 0;; ++g) {
		REQUIRE(g < (big ? 60000 : 3000), "does not come to an end");
		if (R.chance(50)) {
			for (int still = 0; still < 2;) { ++still; for (auto* x : s.sch) for (;;) { ++s.batch; if (!x->run_one_batch()) break; still = 0; } }
			for (auto& r : s.r) {
				if (r.open && !r.armed) r.armed = 1;
				int d = 0; for (int i = 0; i < r.n; ++i) d += r.k[(size_t)i].done; bool ready = any ? (r.n == 0 || d > 0) : d == r.n;
				if (r.open && r.awaited && ready) REQUIRE(r.ended == 1, "when %d: %d of %d sub-tasks have completed and the awaiter is still suspended", r.id, d, r.n);
				if (r.ended && !ready) vs::fail("when %d completed too early", r.id);
			}
			if (s.awaiters == 0) break;
		} else for (auto* x : s.sch) if (R.chance(60)) { ++s.batch; x->run_one_batch(); }
		int pokes = R.chance(60) ? R.range(1, big ? 30 : 3) : 0;
		while (pokes-- > 0) { Round& r = s.r[(size_t)R.below((int)s.r.size())]; if (r.n && (r.open || R.chance(5))) complete(&r, R.below(r.n)); }
		if (R.chance(40)) vs::set_now(vs::now() + R.range(0, 10) * 100000);
	}
	for (auto& r : s.r) for (int i = 0; i < r.n; ++i) complete(&r, i);
	for (int g = 0, q = 0; g < 400 && q < 2; ++g) { vs::set_now(vs::now() + (big ? 100 : 10) * MS); ++q; for (auto* x : s.sch) { while (x->run_one_batch()) q = 0; if (!x->empty()) q = 0; } }
	for (auto& r : s.r) for (int i = 0; i < r.n; ++i) REQUIRE(r.k[(size_t)i].done == 1, "sub-task %d of %d did not run to its end", i, r.id);
	for (auto* x : s.sch) REQUIRE(x->empty(), "scheduler is not empty in the end");
}
#else
void run_mt(bool any)
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.mt = true; World w(R.range(1, 3)); s.w = &w;
	int na = R.range(1, 3); auto all = plan(&s, any, na); std::vector<int> on, to; for (int a = 0; a < na; ++a) on.push_back(R.below(w.n)); for (size_t i = 0; i < s.r.size(); ++i) to.push_back(R.below(w.n));
	w.init = [&](int i) { s.tid[i] = vs::self(); for (size_t a = 0; a < all.size(); ++a) if (on[a] == i) { for (auto& p : all[a]) s.r[(size_t)p.first].sch = w.s(to[(size_t)p.first]); go awaiter(&s, i, all[a]); } };
	int nx = R.range(1, 2); auto todo = std::make_shared<std::vector<std::vector<std::pair<int, int>>>>((size_t)nx);
	for (auto& r : s.r) for (int i = 0; i < r.n; ++i) if (r.k[(size_t)i].kind >= AW_LONG) (*todo)[(size_t)R.below(nx)].emplace_back(r.id, i);
	for (int x = 0; x < nx; ++x) w.ext.push_back([&s, todo, x, seed = R.next()] {
		Rng g; g.seed(seed); auto v = (*todo)[(size_t)x];
		// mostly in the order of the rounds, otherwise in any order
		for (size_t j = 0; j < v.size(); ++j) { size_t k = j; for (size_t m = j; m < v.size(); ++m) if (v[m].first == v[j].first && g.chance(50)) k = m; std::swap(v[j], v[k]); }
		for (auto& q : v) { Round& r = s.r[(size_t)q.first]; if (g.chance(60)) { int lim = g.chance(90) ? 500 : 3; while (!r.armed && lim-- > 0) vs::yield(); } complete(&r, q.second); if (g.chance(40)) vs::yield(); } });
	if (R.chance(60)) vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 20) * 100000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	for (auto& r : s.r) for (int i = 0; i < r.n; ++i) REQUIRE(r.k[(size_t)i].done == 1, "sub-task %d of %d did not run to its end", i, r.id);
	for (auto& r : s.r) REQUIRE(r.ended == 1, "when %d: its sub-tasks have completed and its awaiter is still suspended", r.id);
	REQUIRE(s.awaiters == 0, "an awaiter did not end");
	w.finish();
}
#endif
} // namespace

#if PART == 1
FAMILY("W01,L01", wall_st, 5, false) { run_st(false); }
FAMILY("W02,L01", wany_st, 5, false) { run_st(true); }
#else
FAMILY("W01,L01,R01,S03", wall_mt, 5, true) { run_mt(false); }
FAMILY("W02,L01,R01,S03", wany_mt, 5, true) { run_mt(true); }
#endif

#if PART == 1
namespace {
// sub-tasks of every other kind: results that are references, move-only, strings, results of when_all and when_any themselves, timed waits, sleeps
struct Kinds {
	scheduler_t* g = G(); awaitable_t<long&> ar; awaitable_t<std::unique_ptr<long>> au; awaitable_t<std::string&> as; awaitable_t<long> a1, a2, x1, x2; event_t e, f, h; channel_t<std::string> ch{ 1 }; channel_t<long> full{ 1 };
	future_t<long&> fr = ar.get_future(); future_t<std::unique_ptr<long>> fu = au.get_future(); future_t<std::string&> fs = as.get_future(); future_t<long> f1 = a1.get_future(), f2 = a2.get_future(), fx1 = x1.get_future(), fx2 = x2.get_future();
	long tgt = 41; std::string str = Mk<std::string>::make(6); int64_t t0 = vs::now(), due = 0, sl = 0; bool ended = false, timed = false, wrote = false; int first = -1; uint32_t done = 0, posted = 0; long base = R.range(1, 1000);
	std::vector<int> ops; int x = R.below(2); bool given = R.chance(50);
};
enum { KREF, KUNIQ, KALL, KANY, KTIMED, KWAITALL, KREAD, KSLEEP, KWRITE, KSTR, NKIND };
future_t<long> inner(Kinds* s) { co_return co_await s->f2; }
void check_any(Kinds* s, const when_any_pair& r) { REQ("W01,W02", r.first == s->x && std::any_cast<long>(r.second) == s->base + 50 + s->x, "a when_any among the sub-tasks reports %ld", (long)r.first); }
future_t<> k_all(Kinds* s)
{
	std::vector<event_t> ev{ s->f, s->h }; auto nested = [s] { return when_all(*s->g, std::move(s->f1), inner(s)); }; long out = -1; bool won = false, all = false; std::string rd, st; std::unique_ptr<long> up;
	auto fin = [&](auto& r) { out = std::get<0>(r); up = std::move(std::get<1>(r)); auto& in = std::get<2>(r); REQUIRE(std::get<0>(in) == s->base + 3 && std::get<1>(in) == s->base + 4, "a when_all among the sub-tasks: %ld, %ld", (long)std::get<0>(in), (long)std::get<1>(in)); check_any(s, std::get<3>(r)); won = std::get<4>(r); all = std::get<5>(r); rd = std::get<6>(r); st = std::get<9>(r); };
	if (s->given) { auto r = co_await when_all(*s->g, std::move(s->fr), std::move(s->fu), nested(), when_any(*s->g, std::move(s->fx1), std::move(s->fx2)), s->e.wait_until(tp(s->due)), event_t::wait_all(ev), s->ch.read(), sleep_until(tp(s->sl), *s->g), s->full.write(2), std::move(s->fs)); fin(r); }
	else { auto r = co_await when_all(s->fr, s->fu, nested, when_any(std::move(s->fx1), std::move(s->fx2)), s->e.wait_until(tp(s->due)), event_t::wait_all(ev), s->ch.read(), sleep_until(tp(s->sl), *s->g), s->full.write(2), s->fs); fin(r); }
	REQUIRE(s->done == (1u << NKIND) - 1, "when_all ended with %x complete", s->done); REQUIRE(out == 41 && up && *up == s->base + 7 && Mk<std::string>::get(rd) == 5 && Mk<std::string>::get(st) == 6, "a result is wrong"); REQUIRE(all && won != s->timed, "wait_all gave %d, the timed wait %d", all, won); s->ended = true;
}
future_t<> k_any(Kinds* s)
{
	std::vector<event_t> ev{ s->f, s->h }; auto chk = [&](const when_any_pair& r) {
		s->first = (int)r.first; switch (r.first) { case KREF: REQUIRE(std::any_cast<long>(r.second) == 41, "value"); break; case 1: case KALL: case KSLEEP: case KWRITE: break; case KANY: check_any(s, std::any_cast<when_any_pair>(r.second)); break; case KTIMED: REQUIRE(std::any_cast<bool>(r.second) == !s->timed, "the timed wait gave %d", !s->timed); break;
		case KWAITALL: REQUIRE(std::any_cast<bool>(r.second), "wait_all gave false"); break; case KREAD: REQUIRE(Mk<std::string>::get(std::any_cast<std::string>(r.second)) == 5, "value"); break; case KSTR: REQUIRE(Mk<std::string>::get(std::any_cast<std::string>(r.second)) == 6, "value"); break; default: vs::fail("when_any reports sub-task %ld", (long)r.first); } };
	if (s->given) chk(co_await when_any(*s->g, std::move(s->fr), std::move(s->fx2), [s] { return when_all(*s->g, std::move(s->f1), inner(s)); }, when_any(*s->g, std::move(s->fx1)), s->e.wait_until(tp(s->due)), event_t::wait_all(ev), [s] { return s->ch.read(); }, sleep_until(tp(s->sl), *s->g), [s] { return s->full.write(2); }, std::move(s->fs)));
	else chk(co_await when_any(s->fr, s->fx2, when_all(std::move(s->f1), inner(s)), when_any(std::move(s->fx1)), s->e.wait_until(tp(s->due)), event_t::wait_all(ev), [s] { return s->ch.read(); }, sleep_until(tp(s->sl), *s->g), [s] { return s->full.write(2); }, s->fs));
	REQUIRE(s->done >> s->first & 1, "when_any reports sub-task %d, which has not completed", s->first); s->ended = true;
}
void kinds(bool any)
{
	vs::kind_name = kn; Kinds s; s.due = s.t0 + R.range(50, 100) * U; s.sl = s.t0 + R.range(1, 40) * U; s.timed = R.chance(30); if (any) s.x = 0; { (void)s.full.write(1); settle(); }
	enum { OREF, OUNIQ, OA1, OA2, OX, OE, OF, OH, OCH, OSL, OW, OSTR, NOP }; std::vector<int> o; for (int i = 0; i < NOP; ++i) o.push_back(i); for (int i = NOP - 1; i > 0; --i) std::swap(o[(size_t)i], o[(size_t)R.below(i + 1)]);
	uint32_t ops = 0; int before = R.chance(50) ? R.below(NOP + 1) : R.below(3); bool begun = false; uint32_t at_begin = 0; std::vector<int> seq; int quiet = -1;
	auto mark = [&] { auto has = [&](int a) { return (ops >> a & 1) != 0; }; auto set = [&](int k, bool b) { if (b && !(s.done >> k & 1)) { s.done |= 1u << k; seq.push_back(k); } };
		set(KREF, has(OREF)); set(KUNIQ, any ? true && has(OUNIQ) : has(OUNIQ)); set(KALL, has(OA1) && has(OA2)); set(KANY, has(OX)); set(KTIMED, has(OE) || (s.timed && vs::now() >= s.due)); set(KWAITALL, has(OF) && has(OH)); set(KREAD, has(OCH)); set(KSLEEP, vs::now() >= s.sl); set(KWRITE, has(OW)); set(KSTR, has(OSTR)); };
	for (int j = 0; j <= NOP; ++j) {
		if (j == before || (!begun && j == NOP)) { begun = true; at_begin = s.done; *s.g + (any ? k_any(&s) : k_all(&s)); if (R.chance(50)) settle(); }
		if (j == NOP) break;
		int op = o[(size_t)j]; vs::log(SETV, op, j);
		switch (op) {
		case OREF: s.ar.set_value(s.tgt); break; case OUNIQ: if (any) s.x2.set_value(s.base + 51); else s.au.set_value(std::make_unique<long>(s.base + 7)); break; case OA1: s.a1.set_value(s.base + 3); break; case OA2: s.a2.set_value(s.base + 4); break;
		case OX: if (s.x) s.x2.set_value(s.base + 51); else s.x1.set_value(s.base + 50); break; case OE: if (s.timed) vs::set_now(s.due); else s.e.signal(); break; case OF: s.f.signal(); break; case OH: s.h.signal(); break;
		case OCH: (void)s.ch.write(Mk<std::string>::make(5)); break; case OSL: vs::set_now(std::max(vs::now(), s.sl)); break; case OW: *s.g + [](Kinds* k) -> future_t<> { long v = co_await k->full.read(); REQUIRE(v == 1, "read %ld", v); }(&s); break; case OSTR: s.as.set_value(s.str); break; }
		if (!s.timed && op == OE) {}
		ops |= 1u << op; mark(); bool look = R.chance(60); if (look || (begun && j + 1 == NOP)) { settle(); bool ready = any ? s.done != 0 : s.done == (1u << NKIND) - 1; if (begun) { REQUIRE(!s.ended || ready, "ended with %x complete", s.done); if (ready) { REQUIRE(s.ended, "%x are complete and the awaiter is suspended", s.done); if (any && quiet < 0) quiet = (int)seq.size(); } } }
		if (any && begun && !s.ended && look && !at_begin) { REQUIRE(s.done == 0, "complete %x", s.done); }
	}
	settle(); vs::set_now(std::max(vs::now(), s.due)); mark(); settle(); REQUIRE(s.ended, "the awaiter is still suspended");
	if (any) { bool ok = false; for (int i = 0; i < (quiet < 0 ? (int)seq.size() : quiet); ++i) if (seq[(size_t)i] == s.first) ok = true; REQUIRE(ok, "when_any reports sub-task %d, which was not among the first", s.first); }
	else if (s.x) s.x1.set_value(1); else s.x2.set_value(1);
	settle(); REQUIRE(s.str == Mk<std::string>::make(6) && s.tgt == 41, "what a sub-task's reference refers to was changed"); REQUIRE(s.g->empty(), "tasks are left");
}
// ranges of them
future_t<> k_range(scheduler_t* g, std::vector<future_t<std::unique_ptr<long>>> u, std::vector<future_t<long&>> r, std::vector<event_t>* ev, int* ended, const int* left, bool given)
{
	{ auto& v = u; if (given) { auto q = co_await when_all(*g, v); REQUIRE(q.size() == v.size() && left[0] == 0, "%d were not complete", left[0]); for (size_t i = 0; i < q.size(); ++i) REQUIRE(q[i] && *q[i] == (long)i * 3, "result %zu", i); } else { auto q = co_await when_all(std::begin(v), std::end(v)); REQUIRE(q.size() == v.size() && left[0] == 0, "%d were not complete", left[0]); for (size_t i = 0; i < q.size(); ++i) REQUIRE(q[i] && *q[i] == (long)i * 3, "result %zu", i); } ++*ended; }
	{ auto& v = r; auto q = co_await when_all(*g, v); REQUIRE(q.size() == v.size() && left[1] == 0, "%d were not complete", left[1]); for (size_t i = 0; i < q.size(); ++i) REQUIRE(q[i] == (long)i * 5, "result %zu", i); ++*ended; }
	{ co_await when_all(*ev); REQUIRE(left[2] == 0, "%d were not complete", left[2]); ++*ended; }
}
void kinds_range()
{
	vs::kind_name = kn; int n = upto(0, 6, 40), left[3] = { n, n, n }, ended = 0; std::deque<awaitable_t<std::unique_ptr<long>>> u((size_t)n); std::deque<awaitable_t<long&>> r((size_t)n); std::vector<event_t> ev; std::deque<long> t; for (int i = 0; i < n; ++i) { ev.emplace_back(); t.push_back(i * 5L); }
	std::vector<future_t<std::unique_ptr<long>>> fu; std::vector<future_t<long&>> fr; for (auto& a : u) fu.push_back(a.get_future()); for (auto& a : r) fr.push_back(a.get_future());
	auto* g = G(); *g + k_range(g, std::move(fu), std::move(fr), &ev, &ended, left, R.chance(50)); std::vector<std::pair<int, int>> o; for (int k = 0; k < 3; ++k) for (int i = 0; i < n; ++i) o.emplace_back(k, i); for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[(size_t)R.below((int)i)]);
	for (auto& p : o) { if (R.chance(50)) settle(); size_t i = (size_t)p.second; if (p.first == 0) { auto a = u[i]; a.set_value(std::make_unique<long>((long)i * 3)); } else if (p.first == 1) { auto a = r[i]; a.set_value(t[i]); } else ev[i].signal(); left[p.first]--; vs::log(SETV, p.first, p.second); if (R.chance(50)) { settle(); int want = left[0] ? 0 : left[1] ? 1 : left[2] ? 2 : 3; REQUIRE(ended == want, "%d instead of %d of the when_alls have ended", ended, want); } }
	settle(); REQUIRE(ended == 3 && g->empty(), "%d of the three when_alls have ended", ended); for (int i = 0; i < n; ++i) REQUIRE(t[(size_t)i] == i * 5L, "what a result refers to was changed");
}
}
FAMILY("W01,L01", wall_kinds, 3, false) { if (R.chance(70)) kinds(false); else kinds_range(); }
FAMILY("W02,L01", wany_kinds, 3, false) { kinds(true); }
#endif
