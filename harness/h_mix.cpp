// Programs that mix all the primitives (L01, R01; also S01, S03, F02 at the joints).  Every wait has
// a counterpart that is started together with it, so that every program must come to its end.
#include "mon.h"
#include <any>
#include <mutex>
using namespace mon;

namespace {
enum { BEGIN = 1, END, STMT, THROW, CAUGHT, JOB, GOT, LOCK, UNLOCK, VIA };
const char* kn(uint32_t k) { static const char* n[] = {"?", "BEGIN", "END", "STMT", "THROW", "CAUGHT", "JOB", "GOT", "LOCK", "UNLOCK", "VIA"}; return k < 11 ? n[k] : "?"; }
struct Boom { Obj o; explicit Boom(long v) : o(v) {} };
// one task; its coroutines share it
struct Task { int id; Rx<int> on; Obj tag; Task(int i, int o) : id(i), on(o), tag(i) {} };
typedef std::shared_ptr<Task> TP;
constexpr int NI = 4096;
struct Sys {
	World* w = nullptr; std::vector<scheduler_t*> sch; std::unique_ptr<OwnScheduler> own; bool mt = false; int tid[World::MAX] = {}; Rx<int> inbatch{ -1 }, left{ 0 }, ids{ 0 }, items{ 0 }, budget{ 0 }; bool obj_ex = true;
	std::vector<channel_t<Obj>> ch; std::vector<channel_t<std::string>> cs; std::vector<event_t> ev; std::vector<mutex_t> mx; Rx<int> held[4]; Rx<int> wrote[NI], got[NI];
	std::mutex jm; std::deque<std::function<void()>> jobs;
	int nsch() { return w ? w->n : (int)sch.size(); } scheduler_t* at(int i) { return w ? w->s(i) : sch[(size_t)i]; }
	void post(std::function<void()> f) { std::lock_guard<std::mutex> l(jm); jobs.push_back(std::move(f)); }
	bool job() { std::function<void()> f; { std::lock_guard<std::mutex> l(jm); if (jobs.empty()) return false; f = std::move(jobs.front()); jobs.pop_front(); } vs::log(JOB); f(); return true; }
	void place(Task* t) { t->tag.check(); if (mt) REQ("S03,L01", vs::self() == tid[(int)t->on], "a coroutine is resumed on another thread than its scheduler's"); else REQ("S03,L01", inbatch == (int)t->on, "a coroutine is resumed outside of its scheduler"); }
};
future_t<long> code(Sys* s, TP t, Obj par, long pv, int depth, bool nolock, uint64_t seed);
TP task(Sys* s, int on) { s->left.add(1); return std::make_shared<Task>(1 + s->ids.add(1), on); }
struct Done { Sys* s; TP t; Obj o; Done(Sys* q, TP u) : s(q), t(u), o(u->id) {} ~Done() { REQUIRE(o.get() == t->id, "a local of a task changed"); vs::log(END, t->id); s->left.add(-1); } };
// a detached piece of work on any scheduler, or in a plain thread
typedef std::function<void()> F;
void helper(Sys* s, Rng& g, bool plain, F f)
{
	if (plain && g.chance(50)) { s->post(f); return; }
	int on = g.below(s->nsch()); TP t = task(s, on); int n = g.below(4); int form = g.below(3); int id = t->id;
	auto lam = [s, t, n, f, o = Obj(id), id]() -> future_t<> { Done d(s, t); for (int k = 0; k < n; ++k) { co_await yield(); s->place(t.get()); } f(); REQUIRE(o.get() == id, "a capture of a running lambda changed"); co_await yield(); o.check(); };
	if (form == 0) { auto copy = lam; *s->at(on) + std::move(copy); } else if (form == 1) *s->at(on) + std::move(lam); else { auto fn = [](Sys* s2, TP t2, int m, F f2) -> future_t<> { Done d(s2, t2); for (int k = 0; k < m; ++k) { co_await yield(); s2->place(t2.get()); } f2(); }; *s->at(on) + fn(s, t, n, f); }
}
int64_t soon(Rng& g) { return vs::now() + g.range(-1, 4) * 100000; }
generator_t<Obj> numbers(Obj a, int n) { Obj l(a.get()); for (int i = 0; i < n; ++i) { co_yield Obj(a.get() + i); REQUIRE(l.get() == a.get(), "a local of a generator changed"); } co_return Obj(a.get() + n); }
void item(Sys* s, long id) { vs::log(GOT, id); REQUIRE(id >= 0 && id < NI && s->wrote[id], "an element that was never written was read"); REQUIRE(s->got[id].add(1) == 0, "an element was read twice"); }
future_t<> chan_writer(Sys* s, TP t, int k, bool str, long id) { Done d(s, t); co_await yield(); s->wrote[id] = 1; if (str) co_await (s->cs[(size_t)k] << Mk<std::string>::make(id)); else co_await (s->ch[(size_t)k] << Obj(id)); s->place(t.get()); }
future_t<> chan_reader(Sys* s, TP t, int k, bool str) { Done d(s, t); if (str) { std::string v = co_await s->cs[(size_t)k]; item(s, Mk<std::string>::get(v)); } else { Obj v = co_await s->ch[(size_t)k].read(); item(s, v.get()); } s->place(t.get()); co_await yield(); }
future_t<Obj> child_obj(Sys* s, TP t, Obj par, long pv, int depth, bool nolock, uint64_t seed) { long v = co_await code(s, t, Obj(pv), pv, depth, nolock, seed); REQUIRE(par.get() == pv, "a parameter changed"); co_return Obj(v); }
future_t<> child_void(Sys* s, TP t, Obj par, long pv, int depth, bool nolock, uint64_t seed) { (void)co_await code(s, t, std::move(par), pv, depth, nolock, seed); }
// a sub-task of when_all/when_any: a task of its own that catches what it throws
future_t<long> sub(Sys* s, int on, Obj par, int depth, uint64_t seed) { TP t = task(s, on); Done d(s, t); long v = -1; bool threw = false; try { v = co_await code(s, t, par, par.get(), depth, true, seed); } catch (const Boom& b) { v = b.o.get(); threw = true; } s->place(t.get()); REQUIRE(v == par.get(), "a sub-task ended with another result"); (void)threw; co_return v; }
future_t<long> code(Sys* s, TP t, Obj par, long pv, int depth, bool nolock, uint64_t seed)
{
	Rng g; g.seed(seed); Obj loc(pv + 1); int n = g.range(0, 4); vs::log(BEGIN, t->id, depth); s->place(t.get());
	for (int i = 0; i < n; ++i) {
		if (s->budget.add(-1) <= 0) break;
		int q = g.below(18); vs::log(STMT, t->id, q);
		switch (q) {
		case 0: co_await yield(); break;
		case 1: {
			int64_t at = soon(g); vs::add_deadline(at); int form = g.below(4);
			if (form == 0) co_await sleep_until(tp(at), *s->at(t->on)); else if (form == 1) co_await sleep_until(tp(at)); else if (form == 2) co_await std::chrono::microseconds(g.below(300)); else co_await sleep_for(dns(g.below(300000)));
			if (form < 2) REQ("T02,L01", vs::now() >= at, "a sleep ended early"); cover("sleep"); break; }
		case 2: { bool str = g.chance(30); int k = g.below(2); long id = s->items.add(1); if (id >= NI) break; int on = g.below(s->nsch()); TP h = task(s, on); auto f = chan_writer(s, h, k, str, id); *s->at(on) + std::move(f);
			if (str) { std::string v = co_await s->cs[(size_t)k].read(); item(s, Mk<std::string>::get(v)); } else { Obj v = co_await s->ch[(size_t)k]; item(s, v.get()); } cover("channel read"); break; }
		case 3: { bool str = g.chance(30); int k = g.below(2); long id = s->items.add(1); if (id >= NI) break; int on = g.below(s->nsch()); TP h = task(s, on); *s->at(on) + chan_reader(s, h, k, str); s->wrote[id] = 1;
			if (str) co_await s->cs[(size_t)k].write(Mk<std::string>::make(id)); else { Obj v(id); co_await s->ch[(size_t)k].write(v); REQUIRE(v.get() == id, "a written lvalue changed"); } cover("channel write"); break; }
		case 4: { int k = g.below(2); event_t e = s->ev[(size_t)k]; helper(s, g, true, [e]() { e.signal(); }); co_await e.wait(); cover("event"); break; }
		case 5: { int k = g.below(2); bool sig = g.chance(60); if (sig) { event_t e = s->ev[(size_t)k]; helper(s, g, true, [e]() { e.signal(); }); } int64_t at = soon(g); vs::add_deadline(at); bool r = co_await s->ev[(size_t)k].wait_until(tp(at)); cover(r ? "timed wait: signaled" : "timed wait: timed out"); if (r && !sig) s->ev[(size_t)k].signal(); /* somebody else's: give it back */ break; }
		case 6: case 7: {
			if (nolock) break; int k = g.below(2); bool thrown = false;
			try {
				if (q == 6) {
					auto l = co_await s->mx[(size_t)k].lock(); vs::log(LOCK, t->id, k); REQUIRE(s->held[k].add(1) == 0, "a mutex has two holders"); struct Out { Sys* s; int k; ~Out() { s->held[k].add(-1); } } out{ s, k };
					if (g.chance(50)) (void)co_await code(s, t, par, pv, depth + 3, true, g.next()); else co_await yield(); if (g.chance(30)) throw Boom(pv);
				} else {
					int64_t at = soon(g); vs::add_deadline(at); bool r = co_await s->mx[(size_t)k].try_lock_until(tp(at));
					if (r) { vs::log(LOCK, t->id, k); REQUIRE(s->held[k].add(1) == 0, "a mutex has two holders"); if (g.chance(60)) co_await yield(); s->held[k].add(-1); co_await s->mx[(size_t)k].unlock(); } cover(r ? "timed lock" : "timed lock timed out"); }
			} catch (const Boom& b) { thrown = true; REQUIRE(b.o.get() == pv, "another exception was caught"); }
			vs::log(UNLOCK, t->id, k); if (thrown) cover("exception out of a lock"); break; }
		case 8: case 9: {
			if (depth > 4) break; long cv = pv + 10 + i; bool caught = false; long v = cv; int form = g.below(4); uint64_t sd = g.next();
			try { if (form == 0) v = co_await code(s, t, Obj(cv), cv, depth + 1, nolock, sd); else if (form == 1) { Obj o = co_await child_obj(s, t, Obj(cv), cv, depth + 1, nolock, sd); v = o.get(); } else if (form == 2) co_await child_void(s, t, Obj(cv), cv, depth + 1, nolock, sd); else { auto f = child_obj(s, t, Obj(cv), cv, depth + 1, nolock, sd); if (g.chance(60)) co_await yield(); v = (co_await std::move(f)).get(); } }
			catch (const Boom& b) { caught = true; v = b.o.get(); vs::log(CAUGHT, t->id, v); }
			REQUIRE(v == cv, "a child returned or threw another value"); cover(caught ? "child threw" : "child returned"); break; }
		case 10: { int to = g.below(s->nsch()); vs::log(VIA, t->id, to); if ((int)t->on != to) cover("moved"); t->on = to; if (g.chance(50)) co_await via(*s->at(to)); else co_await via(s->at(to)); break; }
		case 11: case 12: {
			if (depth > 2) break; int on = t->on; auto mk = [s, on, pv, depth, &g](long v) { return sub(s, on, Obj(v), depth + 3, g.next()); };
			if (q == 11) { if (g.chance(50)) { auto [a, b] = co_await when_all(*s->at(on), mk(pv + 1), mk(pv + 2)); REQUIRE(a == pv + 1 && b == pv + 2, "when_all delivered other values"); } else { std::vector<future_t<long>> v; for (int k = 0; k < 3; ++k) v.push_back(mk(pv + k)); auto r = co_await when_all(*s->at(on), v.begin(), v.end()); REQUIRE(r.size() == 3, "size"); for (int k = 0; k < 3; ++k) REQUIRE(r[(size_t)k] == pv + k, "when_all delivered other values"); } cover("when_all"); }
			else { auto r = co_await when_any(*s->at(on), mk(pv + 1), mk(pv + 2)); REQUIRE(r.first == 0 || r.first == 1, "when_any: index"); long v = std::any_cast<long>(r.second); REQUIRE(v == pv + 1 + (long)r.first, "when_any delivered another value"); cover("when_any"); }
			break; }
		case 13: case 14: {
			awaitable_t<Obj> a; long v = pv + 40; bool ex = s->obj_ex && g.chance(30); helper(s, g, true, [a, v, ex]() { if (ex) { try { throw Boom(v); } catch (...) { a.set_exception(std::current_exception()); } } else a.set_value(Obj(v)); });
			long r = -1; auto f = a.get_future(); if (g.chance(30)) co_await yield(); try { Obj o = co_await f; r = o.get(); REQUIRE(!ex, "an exception was lost"); } catch (const Boom& b) { r = b.o.get(); REQUIRE(ex, "an exception appeared"); } REQUIRE(r == v, "an awaitable delivered another value"); cover("awaitable"); break; }
		case 15: { int m = g.below(4), stop = g.chance(40) ? g.below(4) : 9; auto gen = numbers(Obj(pv), m); int c = 0; for (auto& x : gen) { REQUIRE(x.get() == pv + c, "a generator delivered another value"); if (++c > stop) break; } cover("generator"); break; }
		case 16: { int on = g.below(s->nsch()); TP u = task(s, on); uint64_t sd = g.next(); long v = pv + 60; *s->at(on) + [s, u, sd, v, o = Obj(v)]() -> future_t<> { Done d(s, u); Obj l(o.get()); try { (void)co_await code(s, u, o, v, 3, false, sd); } catch (const Boom& b) { REQUIRE(b.o.get() == v, "another exception was caught"); } REQUIRE(o.get() == v && l.get() == v, "a capture of a running lambda changed"); }; cover("spawn"); break; }
		default: {
			stop_source src; awaitable_t<> a; auto fn = [a, o = Obj(pv)]() { o.check(); a.set_value(); }; { stop_callback<decltype(fn)> cb(src.get_token(), fn); helper(s, g, true, [src]() mutable { src.request_stop(); }); if (g.chance(40)) co_await yield(); co_await a.get_future(); REQUIRE(src.stop_requested(), "stop_requested() is false in spite of the callback"); } cover("stop"); break; }
		}
		s->place(t.get()); REQUIRE(loc.get() == pv + 1 && par.get() == pv, "a local or parameter changed over a suspension");
		if (depth > 0 && g.chance(8)) { vs::log(THROW, t->id, pv); throw Boom(pv); }
	}
	co_return pv;
}
future_t<> top(Sys* s, TP t, uint64_t seed) { Done d(s, t); long v = co_await code(s, t, Obj(5), 5, 0, false, seed); REQUIRE(v == 5, "value"); }
void setup(Sys& s) { for (int i = 0; i < 2; ++i) { s.ch.emplace_back((size_t)R.range(1, 3)); s.cs.emplace_back((size_t)R.range(1, 2)); s.ev.emplace_back(); s.mx.emplace_back(); } s.budget = upto(10, 80, 500); }
void balance(Sys& s) { for (int i = 0; i < NI; ++i) REQUIRE(s.got[i] == s.wrote[i], "element %d was written %d and read %d times", i, (int)s.wrote[i], (int)s.got[i]); for (auto& m : s.mx) REQUIRE(!m.is_locked(), "a mutex is still locked in the end"); }
#if PART == 1
void run_st()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; setup(s); s.sch.push_back(G()); if (R.chance(50)) { s.own = std::make_unique<OwnScheduler>(); s.sch.push_back(s.own.get()); }
	int nt = upto(1, 4, 20); for (int k = 0; k < nt; ++k) { int on = R.below((int)s.sch.size()); *s.sch[(size_t)on] + top(&s, task(&s, on), R.next()); }
	for (int r = 0; s.left > 0 || !s.jobs.empty(); ++r) {
		REQUIRE(r < 30000, "the program does not come to its end, %d tasks are left", (int)s.left);
		for (size_t i = 0; i < s.sch.size(); ++i) for (int b = R.below(3); b > 0; --b) { s.inbatch = (int)i; s.sch[i]->run_one_batch(); s.inbatch = -1; }
		if (R.chance(40)) s.job(); if (R.chance(30)) vs::set_now(vs::now() + R.range(0, 3) * 100000);
	}
	for (int k = 0; k < 2; ++k) for (auto* x : s.sch) settle(x); vs::set_now(vs::now() + 1000 * MS); for (int k = 0; k < 3; ++k) for (auto* x : s.sch) { x->run_one_batch(); settle(x); }
	for (auto* x : s.sch) REQUIRE(x->empty(), "the scheduler is not empty in the end"); balance(s);
}
#else
void run_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.mt = true; s.obj_ex = false; World w(R.range(1, 3)); s.w = &w; setup(s); s.budget = upto(10, 50, 200);
	int nt = upto(1, 4, 10); std::vector<int> on; std::vector<uint64_t> sd; for (int k = 0; k < nt; ++k) { on.push_back(R.below(w.n)); sd.push_back(R.next()); } s.left = 1;
	Rx<int> up(0);
	w.init = [&](int i) { s.tid[i] = vs::self(); up.add(1); while (up < w.n) vs::yield(); for (int k = 0; k < nt; ++k) if (on[(size_t)k] == i) go top(&s, task(&s, i), sd[(size_t)k]); if (i == 0) s.left.add(-1); };
	int nx = R.range(1, 2);
	for (int x = 0; x < nx; ++x) w.ext.push_back([&s, &w, &up] { while (up < w.n) vs::yield(); for (int dry = 0; dry < 50;) { bool r = s.job(); if (r || s.left > 0) dry = 0; else ++dry; if (!r) vs::yield(); } });
	vs::time_jitter((uint32_t)R.range(10, 60), R.range(1, 4) * 100000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	while (s.job()) w.quiet();
	REQUIRE(s.left == 0, "%d tasks did not come to their end", (int)s.left); balance(s);
	w.finish();
}
#endif
} // namespace

#if PART == 1
FAMILY("L01,S01,S03,F02,S04", mix_st, 8, false) { run_st(); }
#else
FAMILY("L01,R01,S03,S01,F02", mix_mt, 8, true) { run_mt(); }
#endif
