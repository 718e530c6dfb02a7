// Timers (T01) and sleeps (T02).
#include "mon.h"
#include <limits.h>
using namespace mon;

namespace {
enum { ADD = 1, STOP, FIRE, CLEAR, UPDATE, ADVANCE, SLEEP, WAKE, CANCELED };
const char* kn(uint32_t k) { static const char* n[] = {"?", "ADD", "STOP", "FIRE", "CLEAR", "UPDATE", "ADVANCE", "SLEEP", "WAKE", "CANCELED"}; return k < 10 ? n[k] : "?"; }
typedef decltype(std::declval<timer_manager&>().add(std::declval<std::chrono::system_clock::time_point>(), std::declval<void (*)(bool)>())) target_ptr;

#if PART == 1
// ------------------------------------------------------------------ timers, single threaded, exact model
struct Tm { int64_t at; bool called = false, canceled = false, stopped = false, cleared = false; int64_t round; std::vector<timer_handler> h; target_ptr keep; int alive = 0; };
struct Sys {
	timer_mgr_ptr m; scheduler_t* sch = nullptr; std::unique_ptr<OwnScheduler> own;
	std::deque<Tm> t; int depth = 0; int64_t round = 0; bool clearing = false, updating = false, dying = false; int left = big ? 900 : 60; int last = -1; int incb = 0;
	bool pending(const Tm& x) const { return !x.called && !x.stopped && !x.cleared; }
	// the next timer that must fire: due, in order of deadline, equal ones in order of addition
	int next() const { int b = -1; for (size_t i = 0; i < t.size(); ++i) { const Tm& x = t[i]; if (!pending(x) || x.round == round || x.at > vs::now()) continue; if (b < 0 || x.at < t[(size_t)b].at) b = (int)i; } return b; }
	void check(const char* when)
	{
		bool some = false, none = true; for (auto& x : t) { if (pending(x)) some = true; if (!x.called) none = false; }
		if (!incb) for (size_t i = 0; i < t.size(); ++i) if (t[i].called) REQ("L01,T01", t[i].alive == 0, "the callback of timer %zu was called and is not destroyed (%d copies)", i, t[i].alive);
		if (some && !clearing && !dying) REQUIRE(!m->empty(), "empty() is true although a timer is pending (%s)", when);
		if (none && !incb) REQUIRE(m->empty(), "empty() is false although every timer is gone (%s)", when);
		for (size_t i = 0; i < t.size(); ++i) { Tm& x = t[i]; for (auto& h : x.h) {
			if (pending(x) && !clearing && !dying) REQUIRE(!h.expired(), "expired() is true for pending timer %zu", i);
			if (x.called && !incb && !x.keep) REQUIRE(h.expired(), "expired() is false for timer %zu, which is gone", i); } }
	}
};
void actions(Sys* s, int n);
struct Alive { int* n; explicit Alive(int* p) : n(p) { ++*n; } Alive(const Alive& r) : n(r.n) { ++*n; } Alive& operator=(const Alive&) = delete; ~Alive() { --*n; } };
struct Cb {
	Sys* s; int i; Obj o; Alive a;
	Cb(Sys* s_, int i_) : s(s_), i(i_), o(i_), a(&s_->t[(size_t)i_].alive) {}
	void operator()(bool canceled)
	{
		o.check(); Sys* q = s; Tm& x = q->t[(size_t)i]; vs::log(FIRE, i, canceled);
		REQUIRE(!x.called, "the callback of timer %d is called twice", i);
		if (!canceled) {
			REQUIRE(q->updating && !q->clearing, "timer %d fired outside of an update", i);
			REQUIRE(!x.stopped, "timer %d fired after stop() returned true", i);
			REQUIRE(!x.cleared, "timer %d fired although it was cleared", i);
			REQUIRE(vs::now() >= x.at, "timer %d fired %lld ns early", i, (long long)((int64_t)x.at - vs::now()));
			int n = q->next();
			REQUIRE(n == i, "timer %d fired, timer %d was due before it", i, n);
			cover("fired");
		} else { REQUIRE(x.stopped || x.cleared, "timer %d is canceled, it was neither stopped nor cleared", i); cover(x.stopped ? "canceled by stop" : "canceled by clear"); }
		x.called = true; x.canceled = canceled;
		++q->incb;
		for (auto& h : x.h) if (R.chance(30)) { bool r = h.stop(); REQUIRE(!r, "stop() of a timer whose callback runs returned true"); }
		if (R.chance(40) && !q->dying) actions(q, R.range(1, 3));
		--q->incb; REQUIRE(o.get() == i, "the callback object changed during its call");
	}
};
void add(Sys* s)
{
	if (--s->left < 0) return;
	int i = (int)s->t.size(); s->t.emplace_back(); Tm& x = s->t.back();
	int64_t d = R.chance(20) ? 0 : R.chance(20) ? -(int64_t)R.range(0, 3) * U : R.range(0, 8) * U + (R.chance(10) ? R.below(3) : 0);
	if (big && R.chance(2)) { d = R.range(0, 900000) * 1000 * MS + R.below(999) * MS; cover("a deadline far away"); }
	int dk = dur_kind(d); x.at = vs::now() + d; x.round = s->updating ? s->round : -1;
	vs::log(ADD, i, d); if (s->incb) cover("added by a callback"); if (d <= 0) cover("already due");
	Cb cb(s, i); int q = R.below(100); auto* m = s->m.get();
	if (q < 12) x.keep = as_tp(dk, x.at, [&](auto t) { return m->add(t, cb); });
	else if (q < 24) x.keep = as_dur(dk, d, [&](auto t) { return m->add(t, std::move(cb)); });
	else if (q < 30) m->add(tp(x.at), std::move(cb));
	else if (q < 60) x.h.push_back(as_tp(dk, x.at, [&](auto t) { return m->add_handler(t, std::move(cb)); }));
	else if (q < 75) x.h.push_back(as_dur(dk, d, [&](auto t) { return m->add_handler(t, cb); }));
	else if (q < 85) { x.at = vs::now() + d / MS * MS; x.h.push_back(m->add_handler(std::chrono::milliseconds(d / MS), cb)); }
	else if (q < 90) { int64_t ms = x.at / MS; x.at = ms * MS; x.h.push_back(m->add_handler(std::chrono::time_point<std::chrono::system_clock, std::chrono::milliseconds>(std::chrono::milliseconds(ms)), std::function<void(bool)>(cb))); }
	else { std::function<void(bool)> f(cb); x.h.push_back(m->add_handler(tp(x.at), f)); REQUIRE((bool)f, "the callback was moved out of an lvalue"); }
	if (q < 12 || (q >= 60 && q < 85)) REQUIRE(cb.o.get() == i, "the callback was moved out of an lvalue");
	if (x.keep && R.chance(50)) { x.h.push_back(timer_handler(m, x.keep)); }
	if (!x.h.empty()) {
		while (R.chance(30) && x.h.size() < 4) { timer_handler c = x.h.back(); x.h.push_back(c); }
		if (R.chance(15)) { timer_handler y = std::move(x.h.back()); timer_handler z; z = std::move(y); REQUIRE(!y.stop() && y.expired(), "a moved-from handler still refers to the timer"); x.h.back() = z; }
	}
	if (R.chance(15)) { x.h.clear(); }
}
void stop(Sys* s)
{
	if (s->t.empty()) return; int i = R.below((int)s->t.size()); Tm& x = s->t[(size_t)i];
	bool may = s->pending(x), unsure = s->clearing && !x.called;
	if (x.h.empty()) { if (x.keep) { vs::log(STOP, i); x.stopped = x.stopped || may; bool r = s->m->stop(x.keep); if (!unsure) REQUIRE(r == may, "stop() of timer %d returned %d, it was %spending", i, r, may ? "" : "not "); if (R.chance(50)) x.keep.reset(); } return; }
	size_t k = (size_t)R.below((int)x.h.size()); vs::log(STOP, i, 1);
	if (R.chance(10)) { x.h[k].reset(); REQUIRE(x.h[k].expired() && !x.h[k].stop(), "a handler that was reset"); x.h.erase(x.h.begin() + (long)k); return; }
	bool was = x.stopped; x.stopped = x.stopped || may;
	bool r = x.h[k].stop(); (void)was;
	if (!unsure) REQUIRE(r == may, "stop() of timer %d returned %d, it was %spending", i, r, may ? "" : "not ");
	REQUIRE(x.h[k].expired(), "a handler refers to a timer after stop()"); REQUIRE(!x.h[k].stop(), "stop() returned true twice");
	x.h.erase(x.h.begin() + (long)k); if (s->incb) cover("stopped by a callback"); if (r) cover("stopped");
}
void clear(Sys* s)
{
	vs::log(CLEAR); for (auto& x : s->t) if (s->pending(x)) x.cleared = true;
	bool was = s->clearing; s->clearing = true; size_t n = s->t.size();
	if (s->own && R.chance(50)) s->own->request_stop_all_if_possible(); else s->m->clear();
	s->clearing = was; if (s->incb) cover("cleared by a callback"); else cover("cleared");
	// called now or, if it was stopped before, at the latest now
	if (!s->incb) for (size_t i = 0; i < n; ++i) REQUIRE(s->t[i].called, "timer %zu was not called by clear()", i);
}
void actions(Sys* s, int n) { for (int k = 0; k < n; ++k) { int q = R.below(100); if (q < 50) add(s); else if (q < 85) stop(s); else if (q < 90) clear(s); else s->check("in between"); } }
void update(Sys* s)
{
	++s->round; vs::log(UPDATE, s->round); s->updating = true;
	if (s->sch && R.chance(60)) s->sch->run_one_batch(); else s->m->update();
	s->updating = false;
	for (size_t i = 0; i < s->t.size(); ++i) { Tm& x = s->t[i]; if (x.round == s->round) { x.round = -1; continue; } REQUIRE(x.called || x.at > vs::now(), "timer %zu was due at the update and its callback was not called", i); }
	s->check("after an update");
}
void run_tm()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp;
	int q = R.below(3);
	if (q == 0) { s.sch = G(); s.m = G()->timer()->shared_from_this(); } else if (q == 1) { s.own = std::make_unique<OwnScheduler>(); s.sch = s.own.get(); s.m = s.own->timer()->shared_from_this(); } else s.m = std::make_shared<timer_manager>();
	int n = R.range(2, 25);
	for (int i = 0; i < n; ++i) {
		actions(&s, upto(1, 5, 60)); s.check("between updates");
		if (R.chance(60)) { int64_t d; int64_t b = INT64_MAX; for (auto& x : s.t) if (!x.called) b = std::min(b, x.at); int r = R.below(4); if (r == 0 || b == INT64_MAX) d = R.range(0, 4) * U; else if (r == 1) d = b - vs::now() - 1; else if (r == 2) d = b - vs::now(); else d = below_ns(3 * U); if (d > 0) vs::set_now(vs::now() + d); vs::log(ADVANCE, d); }
		update(&s);
	}
	if (R.chance(40) && s.sch != G()) {                  // destroy it with timers pending
		for (auto& x : s.t) if (s.pending(x)) x.cleared = true;
		s.dying = true; s.clearing = true; bool some = false; for (auto& x : s.t) if (!x.called) some = true; if (some) cover("destroyed with timers");
		if (R.chance(50)) for (auto& x : s.t) x.keep.reset();
		timer_mgr_wptr w = s.m; s.m.reset(); s.own.reset(); s.sch = nullptr; REQUIRE(w.expired(), "a handler keeps its manager alive");
		for (size_t i = 0; i < s.t.size(); ++i) { REQUIRE(s.t[i].called, "timer %zu was not called by the destructor of its manager", i); for (auto& h : s.t[i].h) { REQUIRE(h.expired() || s.t[i].keep, "expired() is false although the manager is gone"); REQUIRE(!h.stop(), "stop() returned true although the manager is gone"); } }
	} else {
		for (int g = 0;; ++g) { bool all = true; int64_t b = INT64_MAX; for (auto& x : s.t) if (!x.called) { all = false; b = std::min(b, x.at); } if (all) break; vs::set_now(std::max(vs::now(), b)); update(&s); REQUIRE(g < 5000, "timers do not come to an end"); }
		REQUIRE(s.m->empty(), "empty() is false in the end");
		for (auto& x : s.t) x.keep.reset();
	}
}
// ------------------------------------------------------------------ sleeps, single threaded
struct Sl { int sch, where, form; int64_t lo, hi; bool direct, awaited = false, suspended = false, done = false, canceled = false, must = false, may = false; int64_t reg; long seq = 0, woke = 0; int late = 0; bool watch = false; };
struct SSys {
	int loads = 0;
	bool batch(size_t k)             // one batch: what was due when it began is overdue soon, however much else is ready
	{
		for (auto& x : sl) x.watch = (size_t)x.where == k && (size_t)x.sch == k && x.suspended && !x.done && x.hi != INT64_MAX && vs::now() >= x.hi;
		bool r = s[k]->run_one_batch();
		for (size_t i = 0; i < sl.size(); ++i) { Sl& x = sl[i]; if (x.watch && !x.done) REQ("T02,T01", ++x.late <= 6, "sleep %zu is due and its scheduler has run %d batches since", i, x.late); }
		return r;
	}
	std::vector<scheduler_t*> s; std::vector<std::unique_ptr<OwnScheduler>> own; std::deque<Sl> sl; int64_t settled = 0; long clock = 0; int tasks = 0, ended = 0; int cleared = 0; bool clearing = false;
	std::vector<future_t<>> kept; std::vector<int> kept_id;
	void clear(int i, bool all)
	{
		vs::log(CLEAR, i, all); ++cleared;
		for (auto& x : sl) { if (x.done || x.where != i) continue; if (x.direct) { if (!x.canceled && !x.must) { if (vs::now() >= x.lo) x.may = true; else x.must = true; } } else if (x.hi != INT64_MAX && vs::now() < x.lo) x.must = true; else x.may = true; }
		if (all) s[(size_t)i]->request_stop_all_if_possible(); else s[(size_t)i]->timer()->clear();
	}
};
// the outcome of one sleep
void woken(SSys* s, int i, bool canceled)
{
	Sl& x = s->sl[(size_t)i]; vs::log(canceled ? CANCELED : WAKE, i);
	REQ("T02", !x.done, "sleep %d ended twice", i);
	if (canceled) REQ("T02", x.must || x.may, "sleep %d was canceled, the timers of its scheduler were not cleared", i);
	else { REQ("T02", vs::now() >= x.lo, "sleep %d ended %lld ns early", i, (long long)(x.lo - vs::now())); REQ("T02", !x.must, "sleep %d went on until its time although it had been canceled", i); }
	x.done = true; x.canceled = canceled; x.suspended = false;
	if (!canceled) for (int j = 0; j < (int)s->sl.size(); ++j) if (Sl& y = s->sl[(size_t)j]; &y != &x && y.seq < s->clock && x.seq < s->clock && y.suspended && y.form == x.form && y.sch == x.sch && y.where == x.where && !y.done && !y.must && !y.may && !x.may && x.hi != INT64_MAX && y.hi != INT64_MAX) REQ("T02", y.hi >= x.lo, "sleep %d, due %lld ns later, ended before sleep %d", i, (long long)(x.lo - y.hi), j);
	cover(canceled ? "sleep canceled" : "slept");
}
int begin(SSys* s, int sch, int where, int form, int64_t d, bool direct, bool relative)
{
	(void)relative; int i = (int)s->sl.size(); s->sl.emplace_back(); Sl& x = s->sl.back(); x.sch = sch; x.where = where; x.form = form; x.lo = vs::now() + d; x.direct = direct; x.hi = direct ? x.lo : INT64_MAX; x.reg = vs::now(); x.seq = LONG_MAX; vs::log(SLEEP, i, form); return i;
}
#define OUTCOME(expr) do { bool c_ = false; try { expr; } catch (const canceled_exception& e_) { c_ = true; REQ("T02", e_._error == error_code::timer_canceled, "canceled with another code"); REQ("T02", strstr(e_.what(), "timer_canceled") != nullptr, "canceled with the text '%s'", e_.what()); } woken(s, i, c_); } while (0)
#define ENTER() do { s->sl[(size_t)i].seq = s->clock; s->sl[(size_t)i].awaited = s->sl[(size_t)i].suspended = true; } while (0)
future_t<> load(SSys* s, int n) { while (n-- > 0) co_await yield(); --s->loads; }
future_t<> sleeper(SSys* s, int sch, int n)
{
	for (int k = 0; k < n; ++k) {
		int64_t d = R.chance(15) ? 0 : R.chance(5) ? -U : R.range(0, 6) * U + (R.chance(20) ? R.below(3) : 0); int where = R.chance(70) ? sch : R.below((int)s->s.size());
		if (R.chance(2)) { d = R.range(1, 5000) * 1000 * MS + R.below(1000) * MS; cover("a long sleep"); }
		int dk = dur_kind(d); int64_t at = vs::now() + d;
		switch (R.below(9)) {
		case 0: { int i = begin(s, sch, where, 0, d, true, false); ENTER(); OUTCOME(co_await as_tp(dk, at, [&](auto t) { return sleep_until(t, *s->s[(size_t)where]); })); break; }
		case 1: { int i = begin(s, sch, where, 0, d, true, true); ENTER(); OUTCOME(co_await as_dur(dk, d, [&](auto t) { return sleep_for(t, *s->s[(size_t)where]); })); break; }
		case 2: { int i = begin(s, sch, sch, 2, d, false, true); ENTER(); if (dk == 0) { OUTCOME(co_await dns(d)); } else if (dk == 7) { OUTCOME(co_await std::chrono::duration<double>((double)(d / 1953125) / 512.0)); } else { OUTCOME(co_await as_dur(dk, d, [](auto t) { return operator co_await(t); })); } break; }
		case 3: { int64_t m = d / MS; int i = begin(s, sch, sch, 2, m * MS, false, true); ENTER(); OUTCOME(co_await std::chrono::milliseconds(m)); break; }
		case 4: { int i = begin(s, sch, sch, 4, d, false, true); ENTER(); OUTCOME(co_await as_dur(dk, d, [](auto t) { return sleep_for(t); })); break; }
		case 5: { int i = begin(s, sch, sch, 4, d, false, false); ENTER(); OUTCOME(co_await as_tp(dk, at, [](auto t) { return sleep_until(t); })); break; }
		case 6: {                                   // made now, awaited later
			auto f = as_tp(dk, at, [&](auto t) { return sleep_until(t, *s->s[(size_t)where]); }); int i = begin(s, sch, where, 6, d, true, false); int y = R.below(4);
			for (int j = 0; j < y; ++j) co_await yield();
			if (s->sl[(size_t)i].must) cover("canceled before it was awaited"); else if (vs::now() >= at) cover("over before it was awaited");
			ENTER(); OUTCOME(co_await f); break; }
		case 7: {                                   // made now, awaited after another sleep
			auto f = as_dur(dk, d, [&](auto t) { return sleep_for(t, *s->s[(size_t)where]); }); int i = begin(s, sch, where, 6, d, true, false); int64_t d2 = R.range(0, 4) * U;
			try { co_await sleep_until(tp(vs::now() + d2), *s->s[(size_t)sch]); } catch (const canceled_exception&) {}
			if (s->sl[(size_t)i].must) cover("canceled before it was awaited"); else if (vs::now() >= at) cover("over before it was awaited");
			ENTER(); OUTCOME(co_await f); break; }
		default: { int i = begin(s, sch, where, 0, d, true, false); s->sl[(size_t)i].done = true; (void)sleep_until(tp(at), *s->s[(size_t)where]); break; }   // dropped
		}
		int q = R.below(100);
		if (q < 6) { s->clear(sch, false); cover("cleared by a coroutine"); } else if (q < 10) { s->clear(R.below((int)s->s.size()), true); cover("stopped by a coroutine"); } else if (q < 30) co_await yield();
		else if (q < 34) { int w = R.below((int)s->s.size()); bool all = R.chance(50); (void)s->s[(size_t)w]->timer()->add(dns(R.range(0, 4) * U), [s, w, all](bool c) { if (!c) { s->clear(w, all); cover("cleared by a timer"); } }); }
	}
	++s->ended;
}
void run_sl()
{
	vs::kind_name = kn; auto sp = std::make_unique<SSys>(); SSys& s = *sp; s.s.push_back(G());
	if (R.chance(40)) { s.own.push_back(std::make_unique<OwnScheduler>()); s.s.push_back(s.own[0].get()); }
	int n = upto(1, 8, 150); for (int i = 0; i < n; ++i) { int w = R.below((int)s.s.size()); ++s.tasks; *s.s[(size_t)w] + sleeper(&s, w, R.range(1, 6)); }
	if (R.chance(40)) { s.loads = R.range(1, 12); for (int i = 0; i < s.loads; ++i) { int w = R.below((int)s.s.size()); *s.s[(size_t)w] + load(&s, R.range(1, 60)); } cover("under load"); }
	for (int g = 0;; ++g) {
		REQUIRE(g < (big ? 60000 : 4000), "sleeps do not come to an end");
		if (R.chance(70)) {
			for (int still = 0; still < 2;) { ++still; for (size_t k = 0; k < s.s.size(); ++k) while (s.batch(k)) { still = 0; if (s.loads && R.chance(10)) break; } if (s.loads && R.chance(20)) { still = 0; vs::set_now(vs::now() + R.range(0, (int)MS)); } }
			int at = -1; ++s.clock;
			for (auto& x : s.sl) {
				++at; if (!x.direct && x.hi == INT64_MAX) { x.hi = x.lo - x.reg + vs::now(); }
				if (x.awaited && !x.done) { REQ("T02", !x.must, "sleep %d was canceled and its coroutine is still suspended", at); REQ("T02", vs::now() < x.hi, "sleep %d is %lld ns overdue", at, (long long)(vs::now() - x.hi)); }
			}
			if (s.ended == s.tasks) break;
		} else { for (size_t k = 0; k < s.s.size(); ++k) if (R.chance(60)) s.batch(k); }
		int64_t b = INT64_MAX; for (auto& x : s.sl) if (!x.done) b = std::min(b, x.hi == INT64_MAX ? x.lo : x.hi);
		int q = R.below(100); if (b == INT64_MAX) b = vs::now() + U;
		if (q < 30) { if (b > vs::now()) vs::set_now(b); } else if (q < 40) { if (b - 1 > vs::now()) vs::set_now(b - 1); } else if (q < 75) vs::set_now(vs::now() + below_ns(3 * U + 1));
		else if (q < 80) s.clear(R.below((int)s.s.size()), R.chance(50));
		vs::log(ADVANCE, g);
	}
	for (int g = 0, q = 0; g < 400 && q < 2; ++g) { vs::set_now(vs::now() + std::max(20000 * MS, 10 * U)); ++q; for (auto* x : s.s) { while (x->run_one_batch()) q = 0; if (!x->empty()) q = 0; } }
	for (auto* x : s.s) REQUIRE(x->empty(), "scheduler is not empty after all sleeps");
}
#else
// ------------------------------------------------------------------ timers from several threads
struct MTm { Rx<int64_t> at; Rx<int> added, called, canceled, stopped, cleared, sch, batch, order, thr, must_by; long payload = 0; long seq = 0; Rx<int> adder; };
struct MSys { World* w; MTm t[160]; Rx<int> n; Rx<int> batch[4], clears[4], marks[4], order; Rx<int> tid[4]; Rx<long> fired; };
struct MCb {
	MSys* s; int i; Obj o; std::shared_ptr<long> data;
	MCb(MSys* s_, int i_, long v) : s(s_), i(i_), o(i_), data(std::make_shared<long>(v)) {}
	void operator()(bool c)
	{
		MTm& x = s->t[i]; vs::log(FIRE, i, c);
		REQ("T01", o.get() == i && *data == x.payload && x.payload == i * 3 + 1, "callback object of timer %d is not what was given", i);
		REQ("T01", x.called.add(1) == 0, "the callback of timer %d is called twice", i);
		REQ("T01", s->tid[x.sch] == vs::self(), "the callback of timer %d runs on another thread", i);
		if (!c) { REQ("T01", vs::now() >= x.at, "timer %d fired %lld ns early", i, (long long)((int64_t)x.at - vs::now())); REQ("T01", !x.cleared, "timer %d fired although it was cleared", i); x.batch = s->batch[x.sch]; x.order = s->order.add(1); cover("fired"); }
		else { x.canceled = 1; cover("canceled"); }
	}
};
int new_timer(MSys* s, int sch, int64_t d, int by, timer_handler* h)
{
	int i = s->n.add(1); if (i >= 150) { s->n.add(-1); return -1; }
	MTm& x = s->t[i]; x.sch = sch; x.at = vs::now() + d; x.payload = i * 3 + 1; x.adder = by; vs::add_deadline(x.at); vs::log(ADD, i, d);
	MCb cb(s, i, x.payload); auto* m = s->w->s(sch)->timer();
	if (h) *h = m->add_handler(tp(x.at), std::move(cb)); else m->add(tp(x.at), std::move(cb));
	x.added = 1; return i;
}
void stop_one(MSys* s, int i, timer_handler& h)
{
	MTm& x = s->t[i]; vs::log(STOP, i); timer_handler c = h; bool r = h.stop(); if (r) { REQ("T01", x.stopped.add(1) == 0, "stop() of timer %d returned true twice", i); cover("stopped"); }
	REQ("T01", h.expired() && !h.stop(), "a handler refers to a timer after stop()");
	if (r) REQ("T01", !c.stop(), "stop() of timer %d returned true twice", i);
}
void worker(MSys* s, int by, uint64_t seed)
{
	Rng r; r.seed(seed); std::vector<std::pair<int, timer_handler>> hs; int n = r.range(1, 12);
	for (int k = 0; k < n; ++k) {
		if (hs.empty() || r.chance(60)) { timer_handler h; bool keep = r.chance(80); int i = new_timer(s, r.below(s->w->n), r.range(-1, 8) * 100000, by, keep ? &h : nullptr); if (i >= 0 && keep) hs.emplace_back(i, h); }
		else { size_t j = (size_t)r.below((int)hs.size()); stop_one(s, hs[j].first, hs[j].second); hs.erase(hs.begin() + (long)j); }
		if (r.chance(30)) vs::yield();
	}
	for (auto& h : hs) if (r.chance(50)) stop_one(s, h.first, h.second); else if (h.second.expired()) cover("expired seen");
}
future_t<> co_worker(MSys* s, int sch, uint64_t seed)
{
	Rng r; r.seed(seed); std::vector<std::pair<int, timer_handler>> hs; int n = r.range(1, 10);
	for (int k = 0; k < n; ++k) {
		int q = r.below(100);
		if (q < 50) { timer_handler h; int i = new_timer(s, r.chance(60) ? sch : r.below(s->w->n), r.range(-1, 8) * 100000, 10 + sch, &h); if (i >= 0) hs.emplace_back(i, h); }
		else if (q < 75 && !hs.empty()) { size_t j = (size_t)r.below((int)hs.size()); stop_one(s, hs[j].first, hs[j].second); hs.erase(hs.begin() + (long)j); }
		else if (q < 80) {
			// everything added to this scheduler before is canceled now; what others add meanwhile may be
			vs::log(CLEAR, sch); std::vector<int> before; int m = s->n; for (int i = 0; i < m && i < 150; ++i) if (s->t[i].added && s->t[i].sch == sch && !s->t[i].called) before.push_back(i);
			s->clears[sch].add(1); s->w->s(sch)->timer()->clear();
			for (int i : before) REQ("T01", s->t[i].called, "timer %d was not called by clear()", i);
			cover("cleared");
		} else co_await yield();
	}
}
void run_tm_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<MSys>(); MSys& s = *sp; World w(R.range(1, 2)); s.w = &w; int nw = R.range(1, 3), nc = R.below(3); bool cl = R.chance(30);
	std::vector<uint64_t> seeds; for (int i = 0; i < 8; ++i) seeds.push_back(R.next());
	for (auto& x : s.marks) x = 0;
	w.init = [&](int i) { s.tid[i] = vs::self(); s.batch[i] = 1; for (int q = 0; q < nc; ++q) go co_worker(&s, i, seeds[(size_t)(i * 3 + q)]); };
	(void)cl;
	// after a batch: what was added and due at the end of the batch before must have been called by now
	w.after_batch = [&](int i) { s.batch[i].add(1); int m = s.n; if (m > 150) m = 150; for (int k = 0; k < m; ++k) { MTm& x = s.t[k]; if (x.sch != i || !x.added || x.called) continue; if (x.must_by && !x.stopped) REQ("T01", false, "timer %d was due before an update and its callback was not called in it", k); else if (x.at <= vs::now()) x.must_by = 1; } };
	for (int i = 0; i < nw; ++i) w.ext.push_back([&s, i, seed = R.next()] { worker(&s, i, seed); });
	vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 20) * 100000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	int n = s.n; for (int i = 0; i < n; ++i) {
		MTm& x = s.t[i]; REQ("T01", x.called == 1, "timer %d was called %d times", i, (int)x.called);
		REQ("T01", !x.stopped || x.canceled, "timer %d fired although stop() returned true", i);
		REQ("T01", !x.canceled || x.stopped || s.clears[x.sch], "timer %d was canceled, nobody stopped or cleared it", i);
	}
	for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { MTm& a = s.t[i]; MTm& b = s.t[j]; if (a.canceled || b.canceled || a.sch != b.sch || a.batch != b.batch) continue;
		if (a.at < b.at || (a.at == b.at && a.adder == b.adder && i < j)) { REQ("T01", a.order < b.order, "in one update timer %d fired before timer %d, which has the earlier deadline", j, i); cover("order compared"); } }
	w.finish();
}
// ------------------------------------------------------------------ sleeps on several threads
struct LSys { World* w; Rx<int> tid[4]; Rx<int> clears[4], finished[4]; Rx<int> ended;
	void clear(int i, bool all) { clears[i].add(1); if (all) w->s(i)->request_stop_all_if_possible(); else w->s(i)->timer()->clear(); finished[i].add(1); } int tasks = 0; Rx<int> slept; };
future_t<> mt_sleeper(LSys* s, int sch, uint64_t seed)
{
	Rng r; r.seed(seed); int n = r.range(1, 6);
	for (int k = 0; k < n; ++k) {
		int64_t d = r.range(0, 8) * 100000; int where = r.chance(70) ? sch : r.below(s->w->n); int form = r.below(6); if (form >= 2 && form < 4) where = sch;
		int64_t lo = vs::now() + d; vs::add_deadline(lo); int c0 = s->finished[where]; bool canceled = false; vs::log(SLEEP, form * 10 + where, d);
		scheduler_t* ws = s->w->s(where);
		try {
			if (form == 0) co_await sleep_until(tp(lo), *ws);
			else if (form == 1) { auto f = sleep_until(tp(lo), *ws); int y = r.below(4); for (int j = 0; j < y; ++j) { co_await yield(); if (r.chance(30)) vs::yield(); } co_await f; }
			else if (form == 2) co_await sleep_until(tp(lo));
			else if (form == 3) { auto f = sleep_until(tp(lo)); co_await f; }
			else if (form == 4) co_await sleep_until(tp(lo), *ws);
			else { (void)sleep_until(tp(lo), *ws); co_await sleep_until(tp(lo), *ws); }
		} catch (const canceled_exception& e) { canceled = true; REQ("T02", e._error == error_code::timer_canceled, "canceled with another code"); }
		vs::log(canceled ? CANCELED : WAKE, form); s->slept.add(1);
		REQ("T02,S03", s->tid[sch] == vs::self(), "a sleeper woke on another thread");
		if (!canceled) REQ("T02", vs::now() >= lo, "a sleep ended %lld ns early", (long long)(lo - vs::now()));
		else REQ("T02", s->clears[where] != c0, "a sleep was canceled, nobody cleared the timers of its scheduler");
		cover(canceled ? "sleep canceled" : where != sch ? "slept on another scheduler" : "slept");
		int q = r.below(100);
		if (q < 6) { s->clear(sch, false); cover("cleared"); }
		else if (q < 10) { s->clear(sch, true); cover("stopped all"); }
		else if (q < 14) { int64_t t = vs::now() + r.range(0, 5) * 100000; vs::add_deadline(t); (void)s->w->s(sch)->timer()->add(tp(t), [s, sch](bool cc) { if (!cc) s->clear(sch, false); }); }
	}
	s->ended.add(1);
}
void run_sl_mt()
{
	vs::kind_name = kn; LSys s; World w(R.range(1, 3)); s.w = &w; std::vector<std::pair<int, uint64_t>> t; int n = upto(1, 7, 40); for (int i = 0; i < n; ++i) t.emplace_back(R.below(w.n), R.next());
	w.init = [&](int i) { s.tid[i] = vs::self(); for (auto& x : t) if (x.first == i) go mt_sleeper(&s, i, x.second); };
	vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 20) * 100000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	REQ("T02", s.ended == n, "%d sleepers are suspended for ever", n - (int)s.ended);
	w.finish();
}
#endif
} // namespace

#if PART == 1
FAMILY("T01,L01", tm_st, 6, false) { run_tm(); }
FAMILY("T02,L01,T01,K02", sl_st, 6, false) { run_sl(); }
#else
FAMILY("T01,L01,R01", tm_mt, 5, true) { run_tm_mt(); }
FAMILY("T02,L01,R01,S03,T01", sl_mt, 5, true) { run_sl_mt(); }
#endif
