// Events: E01 (counting, order), E02 (timed waits), E03 (wait_all).
#include "mon.h"
using namespace mon;

namespace {
enum { WAIT = 1, WAIT_FOR, WAIT_ALL, WAIT_ALL_FOR, DONE, SIGNAL, SIGNAL_END, SIGNAL_ALL, SIGNAL_ALL_END, RESET, SUSP, TIMEOUT, TIME, RESET_END };
const char* kn(uint32_t k) { static const char* n[] = {"?", "WAIT", "WAIT_FOR", "WAIT_ALL", "WAIT_ALL_FOR", "DONE", "SIGNAL", "SIGNAL_END", "SIGNAL_ALL", "SIGNAL_ALL_END", "RESET", "SUSP", "TIMEOUT", "TIME", "RESET_END"}; return k < 15 ? n[k] : "?"; }

#if PART == 1
// ------------------------------------------------------------------ single threaded, exact model
struct Op {
	int kind; std::vector<int> ev; int64_t deadline = -1;
	int left = 0; bool done = false, decided = false, outcome = false, imm = false; uint64_t stamp = 0, batch = 0; uint64_t tseq = 0;
};
struct Model {
	struct E { long credits = 0; std::deque<int> q; };
	std::vector<E> e; std::vector<Op> ops; uint64_t stamp = 0, batch = 0, tseq = 0; int pending = 0; long woken = 0;
	int start(int kind, std::vector<int> ev, int64_t deadline)
	{
		int id = (int)ops.size(); ops.push_back(Op()); Op& o = ops.back();
		o.kind = kind; o.ev = ev; o.deadline = deadline; o.stamp = ++stamp; o.batch = batch; o.left = (int)ev.size(); ++pending;
		vs::log((uint32_t)kind, id, ev.empty() ? -1 : ev[0]);
		for (int k : ev) {
			E& x = e[(size_t)k];
			if (x.credits > 0) { --x.credits; --o.left; cover("wait takes a credit"); }
			else { x.q.push_back(id); if (x.q.size() > 1) cover("several waiters on an event"); }
		}
		if (o.left == 0) { o.decided = o.outcome = o.imm = true; }
		else { if (deadline >= 0) o.tseq = ++tseq; if (!ev.empty() && o.left < (int)ev.size()) cover("wait_all partly satisfied by credits"); }
		return id;
	}
	void give(int id)
	{
		Op& o = ops[(size_t)id];
		if (--o.left == 0) { o.decided = o.outcome = true; ++woken; }
	}
	void signal(int k)
	{
		vs::log(SIGNAL, k); ++stamp;
		E& x = e[(size_t)k];
		if (x.q.empty()) { ++x.credits; return; }
		int id = x.q.front(); x.q.pop_front(); give(id);
	}
	void signal_all(int k) { vs::log(SIGNAL_ALL, k); ++stamp; E& x = e[(size_t)k]; if (x.q.size() > 1) cover("signal_all with several waiters"); if (x.credits) cover("signal_all with credits"); while (!x.q.empty()) { int id = x.q.front(); x.q.pop_front(); give(id); } }
	void reset(int k) { vs::log(RESET, k); ++stamp; if (e[(size_t)k].credits) cover("reset drops credits"); e[(size_t)k].credits = 0; }
	void tick()          // the scheduler is about to update its timers
	{
		++batch;
		int64_t now = vs::now();
		for (size_t i = 0; i < ops.size(); ++i) {
			Op& o = ops[i];
			if (o.decided || o.deadline < 0 || o.deadline > now) continue;
			o.decided = true; o.outcome = false; ++stamp; vs::log(TIMEOUT, (int64_t)i);
			if (o.kind == WAIT_ALL_FOR && o.left < (int)o.ev.size()) cover("wait_all times out partly signalled");
			for (int k : o.ev) { auto& q = e[(size_t)k].q; bool mid = q.size() > 1; for (auto it = q.begin(); it != q.end(); ++it) if (*it == (int)i) { q.erase(it); if (mid) cover("timed out waiter leaves a queue with others"); break; } }
		}
	}
	void done(int id, bool r)
	{
		Op& o = ops[(size_t)id]; vs::log(DONE, id, r);
		REQUIRE(!o.done, "wait %d was resumed twice", id); o.done = true; --pending;
		REQUIRE(o.decided, "wait %d was resumed (%s) although nothing it waits for has happened", id, r ? "true" : "false");
		REQUIRE(o.outcome == r, "wait %d returned %s, must be %s", id, r ? "true" : "false", o.outcome ? "true" : "false");
		REQUIRE(!o.imm || (o.stamp == stamp && o.batch == batch), "wait %d was suspended although a signal was there", id);
		if (o.deadline >= 0) cover(r ? "timed wait: true" : "timed wait: false");
		++stamp;
	}
	void check_quiet() { for (size_t i = 0; i < ops.size(); ++i) REQUIRE(ops[i].done || !ops[i].decided, "wait %zu is left suspended although it has %s", i, ops[i].outcome ? "been signalled" : "timed out"); }
	int64_t next_deadline() { int64_t b = INT64_MAX; for (auto& o : ops) if (!o.decided && o.deadline >= 0) b = std::min(b, o.deadline); return b; }
};
struct Sys { Model m; std::vector<event_t> ev; int mode = 0; int left = 0; };   // mode 0 basic, 1 timed, 2 all
std::vector<int> pick_events(Sys& s)
{
	std::vector<int> all; for (size_t i = 0; i < s.ev.size(); ++i) all.push_back((int)i);
	for (size_t i = all.size(); i > 1; --i) std::swap(all[i - 1], all[(size_t)R.below((int)i)]);
	all.resize((size_t)R.range(R.chance(10) ? 0 : 1, (int)all.size()));
	return all;
}
int64_t pick_dur() { switch (R.below(6)) { case 0: return 0; case 1: return -R.range(1, 1000); case 2: return R.range(1, 5) * U; case 3: return R.range(1, 5) * U + R.below(3); default: return 1 + below_ns(30 * U); } }
void poke(Sys& s, std::vector<event_t>& mine, int k)
{
	int q = R.below(100);
	if (q < 70) { s.m.signal(k); mine[(size_t)k].signal(); }
	else if (q < 88) { s.m.signal_all(k); mine[(size_t)k].signal_all(); }
	else { s.m.reset(k); mine[(size_t)k].reset(); }
}
future_t<bool> sub_wait(Sys* s, event_t e, int k) { int id = s->m.start(WAIT, { k }, -1); bool r = co_await e; s->m.done(id, r); co_return r; }
future_t<> one_wait(Sys& s, std::vector<event_t>& mine)
{
	int k = R.below((int)mine.size());
	int q = R.below(100);
	if (s.mode == 2 && q < 60) {
		auto sel = pick_events(s); std::vector<event_t> evs; for (int i : sel) evs.push_back(mine[(size_t)i]);
		if (R.chance(50)) {
			int id = s.m.start(WAIT_ALL, sel, -1); bool r;
			if (R.chance(50)) r = co_await event_t::wait_all(evs); else r = co_await event_t::wait_all(evs.begin(), evs.end());
			s.m.done(id, r);
		} else {
			int64_t d = pick_dur(); int dk = dur_kind(d); int id = s.m.start(WAIT_ALL_FOR, sel, sel.empty() ? -1 : vs::now() + d); bool r;
			if (R.chance(50)) r = co_await as_dur(dk, d, [&](auto t) { return event_t::wait_all_for(t, evs); }); else r = co_await as_dur(dk, d, [&](auto t) { return event_t::wait_all_for(t, evs.begin(), evs.end()); });
			s.m.done(id, r);
		}
	} else if (s.mode >= 1 && q < 80) {
		int64_t d = pick_dur(); int dk = dur_kind(d); bool r; int id;
		switch (R.below(3)) {
		case 0: id = s.m.start(WAIT_FOR, { k }, vs::now() + d); r = co_await as_dur(dk, d, [&](auto t) { return mine[(size_t)k].wait_for(t); }); break;
		case 1: id = s.m.start(WAIT_FOR, { k }, vs::now() + d); r = co_await as_tp(dk, vs::now() + d, [&](auto t) { return mine[(size_t)k].wait_until(t); }); break;
		default: d = R.below(20) * std::max<int64_t>(1, U / MS); id = s.m.start(WAIT_FOR, { k }, vs::now() + d * MS); r = co_await mine[(size_t)k].wait_for(std::chrono::milliseconds(d)); break;
		}
		s.m.done(id, r);
	} else {
		if (R.chance(33)) { co_await sub_wait(&s, mine[(size_t)k], k); co_return; }
		int id = s.m.start(WAIT, { k }, -1); bool r;
		if (R.chance(50)) r = co_await mine[(size_t)k]; else r = co_await mine[(size_t)k].wait();
		s.m.done(id, r);
	}
}
future_t<> worker(Sys* s, std::vector<event_t> mine, int n, int bias)
{
	for (int i = 0; i < n; ++i) {
		if (R.chance(12)) { co_await yield(); continue; }
		if (R.chance(bias)) poke(*s, mine, R.below((int)mine.size()));
		else if (R.chance(75)) {
			int k = R.below((int)mine.size());
			if (s->mode == 0) { int id = s->m.start(WAIT, { k }, -1); bool r = co_await mine[(size_t)k]; s->m.done(id, r); }
			else if (s->mode == 1) { int64_t d = pick_dur(); int id = s->m.start(WAIT_FOR, { k }, vs::now() + d); bool r = co_await mine[(size_t)k].wait_for(dns(d)); s->m.done(id, r); }
			else { auto sel = pick_events(*s); std::vector<event_t> evs; for (int j : sel) evs.push_back(mine[(size_t)j]);
				int64_t d = pick_dur(); int id = s->m.start(WAIT_ALL_FOR, sel, sel.empty() ? -1 : vs::now() + d); bool r = co_await event_t::wait_all_for(dns(d), evs); s->m.done(id, r); }
		} else co_await one_wait(*s, mine);
	}
	--s->left;
}
void run_st(int mode)
{
	vs::kind_name = kn;
	auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.mode = mode;
	int ne = mode == 2 ? upto(1, 4, 24) : upto(1, 2, 3);
	for (int i = 0; i < ne; ++i) { bool init = R.chance(30); s.m.e.emplace_back(); s.m.e.back().credits = init; s.ev.emplace_back(init); }
	int nw = upto(1, 7, 60); s.left = nw; int bias = R.range(15, 60);
	for (int i = 0; i < nw; ++i) go worker(&s, s.ev, upto(1, 8, 20), bias);
	std::vector<event_t> main_ev = s.ev;
	if (R.chance(30)) s.ev = std::vector<event_t>(s.ev);
	auto batch = [&] { s.m.tick(); return G()->run_one_batch(); };
	int guard = 0;
	for (;;) {
		while (batch()) { REQUIRE(++guard < 20000, "waits never settle"); if (R.chance(20)) poke(s, main_ev, R.below(ne)); if (R.chance(10)) vs::set_now(vs::now() + 1 + below_ns(3 * U)); }
		s.m.check_quiet();
		if (!s.m.pending) break;
		int64_t nd = s.m.next_deadline();
		if (nd != INT64_MAX && R.chance(60)) {
			int64_t t = nd; int q = R.below(5);
			if (q == 0) t = nd - 1; else if (q == 1) t = nd + below_ns(5 * U);
			else if (q == 2 && nd - vs::now() > 2) t = vs::now() + (nd - vs::now()) / 2;
			if (t > vs::now()) vs::set_now(t);
			if (R.chance(30)) poke(s, main_ev, R.below(ne));    // after the deadline, before the scheduler has run
			vs::log(TIME, vs::now() - nd);
		} else {
			for (int k = 0; k < ne; ++k) if (!s.m.e[(size_t)k].q.empty() && R.chance(60)) { if (R.chance(80)) { s.m.signal(k); main_ev[(size_t)k].signal(); } else { s.m.signal_all(k); main_ev[(size_t)k].signal_all(); } }
		}
		REQUIRE(++guard < 20000, "waits never settle");
	}
	REQUIRE(s.left == 0, "%d coroutines did not finish", s.left);
	// the credits that are left are exactly those of the model
	for (int k = 0; k < ne; ++k) {
		long c = s.m.e[(size_t)k].credits;
		auto got = std::make_shared<long>(0);
		for (long i = 0; i < c + 1; ++i) go [](event_t e, std::shared_ptr<long> g) -> future_t<> { co_await e; ++*g; }(main_ev[(size_t)k], got);
		settle(); REQUIRE(*got == c, "%ld credits are left on event %d, must be %ld", *got, k, c);
		main_ev[(size_t)k].signal(); settle(); REQUIRE(*got == c + 1, "signal lost");
	}
	vs::set_now(vs::now() + std::max(3600 * 1000 * MS, 40 * U)); settle();
	REQUIRE(G()->empty(), "scheduler not empty");
}
#else
// ------------------------------------------------------------------ several threads
struct MOp { Rx<int> kind, done, result; Rx<int64_t> deadline; Rx<int> ev0; Rx<uint32_t> mask; };
struct Sys {
	std::vector<event_t> ev; std::vector<MOp> ops; Rx<int> nops, ndone;
	std::vector<Rx<long>> init, signals;
	std::vector<std::vector<int>> open; World* w = nullptr;
	Sys() : ops(big ? 2500 : 500) {}
	int start(int kind, uint32_t mask, int e0, int64_t dl, int sch)
	{
		int id = nops.add(1); MOp& o = ops[(size_t)id]; o.kind = kind; o.mask = mask; o.ev0 = e0; o.deadline = dl;
		if (sch >= 0) open[(size_t)sch].push_back(id);
		if (dl > 0) vs::add_deadline(dl);
		vs::log((uint32_t)kind, id, e0);
		return id;
	}
	void end(int id, bool r)
	{
		MOp& o = ops[(size_t)id]; vs::log(DONE, id, r);
		REQUIRE(!o.done, "wait %d resumed twice", id);
		o.result = r; o.done = 1; ndone.add(1);
		if (!r) { REQUIRE(o.deadline > 0, "wait %d without deadline returned false", id); REQUIRE(vs::now() >= o.deadline, "wait %d timed out %lld ns before its deadline", id, (long long)(o.deadline - vs::now())); cover("timed out"); }
		else cover(o.kind == WAIT_FOR ? "timed wait signalled" : o.kind == WAIT ? "wait signalled" : "wait_all satisfied");
	}
	void after(int i) { auto& o = open[(size_t)i]; for (int id : o) if (!ops[(size_t)id].done) vs::log(SUSP, id); o.clear(); }
	void signal(int k) { signals[(size_t)k].add(1); vs::log(SIGNAL, k); ev[(size_t)k].signal(); vs::log(SIGNAL_END, k); }
	void signal_all(int k) { vs::log(SIGNAL_ALL, k); ev[(size_t)k].signal_all(); vs::log(SIGNAL_ALL_END, k); }
};
future_t<> mt_waiter(Sys* s, int sch, int mode, int n, uint64_t seed, int home)
{
	Rng r; r.seed(seed); int ne = (int)s->ev.size();
	scheduler_t* mine = s->w->s(home);
	for (int i = 0; i < n; ++i) {
		int k = r.below(ne); int64_t d = r.chance(15) ? 0 : r.range(1, 20) * 100000;
		if (r.chance(15)) co_await yield();
		if (r.chance(15)) s->signal(r.below(ne));
		if (mode == 2 && r.chance(75)) {
			std::vector<int> sel; for (int j = 0; j < ne; ++j) if (r.chance(60)) sel.push_back(j);
			for (size_t j = sel.size(); j > 1; --j) std::swap(sel[j - 1], sel[(size_t)r.below((int)j)]);
			std::vector<event_t> evs; uint32_t mask = 0; for (int j : sel) { evs.push_back(s->ev[(size_t)j]); mask |= 1u << j; }
			bool res;
			if (r.chance(40)) { int id = s->start(WAIT_ALL, mask, -1, -1, sch); res = co_await event_t::wait_all(evs); s->end(id, res); }
			else { int id = s->start(WAIT_ALL_FOR, mask, -1, vs::now() + d, sch); auto aw = event_t::wait_all_for(dns(d), evs); vs::add_deadline(vs::now() + d); /* the clock may have moved: its deadline is not before this one's start */ res = co_await aw; s->end(id, res); }
		} else if (mode >= 1 && r.chance(75)) {
			int64_t t = vs::now() + d; int id = s->start(WAIT_FOR, 1u << k, k, t, sch); bool res = co_await s->ev[(size_t)k].wait_until(tp(t)); s->end(id, res);
		} else {
			int id = s->start(WAIT, 1u << k, k, -1, sch); bool res = co_await s->ev[(size_t)k]; s->end(id, res);
		}
		REQUIRE(this_scheduler() == mine, "resumed on another scheduler's thread");
	}
}
// a crowd that waits together; its deadlines and the signals meet
future_t<> crowd_waiter(Sys* s, int sch, int64_t dl, int form)
{
	event_t e = s->ev[0]; std::vector<event_t> one(1, e); bool res;
	if (form == 0) { int id = s->start(WAIT, 1, 0, -1, sch); res = co_await e; s->end(id, res); }
	else if (form == 1) { int id = s->start(WAIT_FOR, 1, 0, dl, sch); res = co_await e.wait_until(tp(dl)); s->end(id, res); }
	else { int id = s->start(WAIT, 1, 0, -1, sch); res = co_await event_t::wait_all(one); s->end(id, res); }
}
// waits that would be satisfied at once, on event k, asked on scheduler sch: the credits
long probe(Sys& s, World& w, int k)
{
	auto got = std::make_shared<Rx<long>>(0); auto fin = std::make_shared<Rx<int>>(0);
	*w.s(0) + [](event_t e, std::shared_ptr<Rx<long>> g, std::shared_ptr<Rx<int>> f) -> future_t<> { int64_t past = vs::now() - 1; while (co_await e.wait_until(tp(past))) g->add(1); *f = 1; }(s.ev[(size_t)k], got, fin);
	w.quiet(); REQUIRE(*fin == 1, "a timed wait whose deadline is past never ended");
	return *got;
}
void order_check(Sys& s, size_t upto)
{
	// untimed and timed waits on one event: whoever is known to wait before another begins is served before it
	struct I { size_t st = ~0ull, su = ~0ull, en = ~0ull; };
	std::vector<I> x((size_t)(int)s.nops);
	for (size_t i = 0; i < upto; ++i) { auto& e = vs::log_at(i);
		switch (e.kind) { case WAIT: case WAIT_FOR: x[(size_t)e.a].st = i; break; case SUSP: x[(size_t)e.a].su = i; break; case DONE: x[(size_t)e.a].en = i; break; } }
	for (size_t a = 0; a < x.size(); ++a) {
		MOp& A = s.ops[a]; if (x[a].st == ~0ull || x[a].su == ~0ull) continue;
		bool pend = x[a].en == ~0ull;
		if (pend && A.kind == WAIT)
			for (size_t b = 0; b < x.size(); ++b) {
				MOp& B = s.ops[b]; if (x[b].st == ~0ull || B.ev0 != A.ev0) continue;
				REQUIRE(!(x[a].su < x[b].st && x[b].en != ~0ull && B.result), "wait %zu was served before wait %zu, which waited longer and still waits", b, a);
			}
		// whoever waits when signal_all begins is released by it
		if (pend || !A.result) for (size_t i = x[a].su; i < (pend ? upto : x[a].en); ++i) {
			auto& e = vs::log_at(i); if (e.kind != SIGNAL_ALL_END || e.a != A.ev0 || (A.deadline > 0 && e.t >= A.deadline)) continue;
			size_t j = i; while (j > 0 && !(vs::log_at(j).kind == SIGNAL_ALL && vs::log_at(j).thr == e.thr && vs::log_at(j).a == e.a)) --j;
			REQUIRE(j < x[a].su, "wait %zu was not released by signal_all, which began when it was waiting", a);
		}
		// timed out although enough signals came in time
		if (!pend && A.kind == WAIT_FOR && !A.result) {
			long k = 0, m = 0;
			for (size_t i = x[a].su; i < x[a].en; ++i) { auto& e = vs::log_at(i); if (e.kind == SIGNAL_END && e.a == A.ev0 && e.t < A.deadline) {
				size_t j = i; while (j > 0 && !(vs::log_at(j).kind == SIGNAL && vs::log_at(j).thr == e.thr && vs::log_at(j).a == e.a)) --j;
				if (j > x[a].su) ++k; } }
			for (size_t b = 0; b < x.size(); ++b) if (b != a && x[b].st != ~0ull && s.ops[b].ev0 == A.ev0 && x[b].st < x[a].su && (x[b].en == ~0ull || x[b].en > x[a].su)) ++m;
			for (size_t b = 0; b < x.size(); ++b) if (s.ops[b].ev0 < 0 && (s.ops[b].mask & (1u << A.ev0))) ++m;   // wait_all: may be ahead
			REQUIRE(k <= m, "wait %zu timed out although %ld signals came before its deadline and at most %ld waiters were ahead of it", a, k, m);
			if (k) cover("timed out behind others");
		}
	}
}
void run_mt(int mode)
{
	vs::kind_name = kn;
	Sys s; World w(R.range(1, 3)); s.w = &w; s.open.resize((size_t)w.n);
	int ne = mode == 3 ? 1 : mode == 2 ? upto(2, 3, 12) : R.range(1, 2);
	for (int i = 0; i < ne; ++i) { bool in = R.chance(30); s.ev.emplace_back(in); s.init.emplace_back(in); s.signals.emplace_back(0); }
	bool with_all = mode != 2 && R.chance(mode == 3 ? 60 : 40);
	struct Sp { int sch, n; uint64_t seed; }; std::vector<Sp> sp; int nw = upto(2, 6, 24);
	for (int i = 0; i < nw; ++i) sp.push_back(Sp{ R.below(w.n), upto(1, 5, 12), R.next() });
	int64_t dl = vs::now() + R.range(1, 5) * 100000; Rx<int> away(0);
	w.init = [&](int i) { for (auto& q : sp) if (q.sch == i) { if (mode == 3) { Rng g; g.seed(q.seed); go crowd_waiter(&s, i, dl + (g.chance(70) ? 0 : g.range(-1, 1)), g.chance(45) ? 1 : g.chance(75) ? 0 : 2); } else go mt_waiter(&s, i, mode, q.n, q.seed, i); } };
	w.after_batch = [&](int i) { away.add((int)s.open[(size_t)i].size()); s.after(i); };
	if (mode >= 1) vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 30) * 100000);
	int nx = R.range(1, 2);
	for (int i = 0; i < nx; ++i) w.ext.push_back([&s, &away, nw, dl, mode, ne, with_all, n = mode == 3 ? R.range(1, 3) : upto(2, 12, 80), seed = R.next()] {
		Rng r; r.seed(seed);
		if (mode == 3) { while (away < nw) vs::yield(); int64_t t = dl - r.range(-1, 2) * 100000; for (int k = r.below(60); k > 0 && vs::now() < t; --k) vs::yield(); }
		for (int j = 0; j < n; ++j) { int k = r.below(ne); if (with_all && r.chance(mode == 3 ? 80 : 25)) s.signal_all(k); else s.signal(k); if (r.chance(20)) vs::yield(); } });
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	for (int round = 0; round < 300; ++round) {
		int n = s.nops;
		order_check(s, vs::log_size());
		int pend = 0;
		std::vector<long> need((size_t)ne);
		for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (o.done) continue; ++pend;
			REQUIRE(o.deadline < 0, "timed wait %d is still suspended after its deadline", i);
			for (int k = 0; k < ne; ++k) if (o.mask & (1u << k)) ++need[(size_t)k]; }
		// conservation per event
		for (int k = 0; k < ne && !with_all; ++k) {
			long S = s.init[(size_t)k] + s.signals[(size_t)k], t = 0, f = 0, pw = 0;
			for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (!(o.mask & (1u << k))) continue;
				bool all = o.kind == WAIT_ALL || o.kind == WAIT_ALL_FOR;
				if (o.done) { if (o.result) ++t; else if (all) ++f; } else { if (all) ++f; else ++pw; } }
			REQUIRE(t <= S, "%ld waits completed on event %d with %ld signals", t, k, S);
			if (pw) REQUIRE(t + f >= S, "%ld waiters of event %d are suspended although only %ld of %ld signals were consumed", pw, k, t + f, S);
		}
		if (!pend) break;
		cover("drain");
		for (int k = 0; k < ne; ++k) if (need[(size_t)k]) s.signal(k);
		w.quiet();
	}
	REQUIRE((int)s.nops == (int)s.ndone, "%d waits never ended", (int)s.nops - (int)s.ndone);
	int n = s.nops;
	long last_all_end = -1; for (size_t i = 0; i < vs::log_size(); ++i) if (vs::log_at(i).kind == SIGNAL_ALL_END) last_all_end = (long)i;
	long lost = 0, may = 0;          // a wait_all that failed had some event left: it took fewer signals than it listed events
	for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (o.kind == WAIT_ALL_FOR && !o.result) may += __builtin_popcount((uint32_t)o.mask) - 1; }
	for (int k = 0; k < ne; ++k) {
		long S = s.init[(size_t)k] + s.signals[(size_t)k], t = 0, f = 0, before = 0;
		for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (!(o.mask & (1u << k))) continue; if (o.result) ++t; else if (o.kind == WAIT_ALL_FOR) ++f; }
		for (size_t i = 0; (long)i < last_all_end; ++i) { auto& e = vs::log_at(i); if ((e.kind == WAIT || e.kind == WAIT_FOR) && e.b == k) ++before; }
		long c = probe(s, w, k); lost += S - t - c;
		if (!with_all) REQUIRE(t + c <= S && S <= t + c + f, "event %d: %ld signals, %ld completed waits, %ld credits left (%ld partial waits)", k, S, t, c, f);
		else { REQUIRE(t + c >= S, "event %d lost signals: %ld given, %ld waits, %ld credits", k, S, t, c); REQUIRE(t + c <= S + before, "event %d released more than was waiting", k); }
		if (f == 0 && !with_all) cover("exact balance"); else cover("bounded balance");
		s.ev[(size_t)k].signal(); long c2 = probe(s, w, k);
		REQUIRE(c2 == 1, "after all waits had ended one signal on event %d left %ld credits", k, c2);
	}
	if (!with_all) REQUIRE(lost <= may, "the wait_alls that timed out took %ld signals; at most %ld if each had an event left to wait for", lost, may);
	w.finish();
}
// resets race with waits and signals: credits may vanish, but none appears
future_t<> reset_waiter(Sys* s, int sch, int n, uint64_t seed)
{
	Rng r; r.seed(seed); int ne = (int)s->ev.size();
	for (int i = n < 0 ? -1 : 0; i < n || i < 0; ++i) {
		int k = r.below(ne); if (n >= 0) for (int j = r.below(4); j > 0; --j) s->signal(k);
		int id = s->start(WAIT, 1u << k, k, -1, sch); bool res;
		if (r.chance(50)) { std::vector<event_t> one(1, s->ev[(size_t)k]); res = co_await event_t::wait_all(one); } else res = co_await s->ev[(size_t)k];
		s->end(id, res);
	}
}
// a wait that begins after a reset is served by signals given since, whatever it meets
void reset_check(int ne)
{
	size_t n = vs::log_size();
	for (int k = 0; k < ne; ++k) {
		struct Sp { size_t st, en; }; std::vector<Sp> re, si, ok; std::unordered_map<uint64_t, size_t> open;
		auto key = [](uint64_t thr, uint64_t c) { return thr * 8 + c; };
		for (size_t i = 0; i < n; ++i) { auto& e = vs::log_at(i);
			if (e.kind == RESET && e.a == k) open[key((uint64_t)e.thr, 0)] = i;
			if (e.kind == RESET_END && e.a == k) { size_t& o = open[key((uint64_t)e.thr, 0)]; re.push_back(Sp{ o, i }); o = i; }
			if (e.kind == SIGNAL && e.a == k) { si.push_back(Sp{ i, ~(size_t)0 }); open[key((uint64_t)e.thr, 1)] = si.size() - 1; }
			if (e.kind == SIGNAL_END && e.a == k) si[open[key((uint64_t)e.thr, 1)]].en = i;
			if (e.kind == WAIT && e.b == k) open[key((uint64_t)e.a, 2)] = i;
			if (e.kind == DONE && e.b) { auto it = open.find(key((uint64_t)e.a, 2)); if (it != open.end()) ok.push_back(Sp{ it->second, i }); } }
		for (auto& A : ok) {
			Sp r{ 0, 0 }; for (auto& q : re) if (q.en < A.st && q.en > r.en) r = q;
			if (!r.en) continue;
			long w = 0, g = 0; for (auto& q : ok) if (q.st > r.en && q.en <= A.en) ++w;
			for (auto& q : si) if (q.st < A.en && q.en > r.st) ++g;
			REQUIRE(w <= g, "%ld waits that began after event %d was reset succeeded, but only %ld signals were given since", w, k, g); cover("wait after a reset");
		}
	}
}
// pollers on several schedulers against signals and resets: of what a reset took nothing comes back
void run_mt_tug()
{
	vs::kind_name = kn; if (R.chance(30)) vs::mean_interval(R.range(2, 6));
	Sys s; int ns = R.range(2, 3); uint64_t sd0 = R.next(); World w(ns); s.w = &w; s.open.resize((size_t)ns); s.ev.emplace_back(false); s.init.emplace_back(false); s.signals.emplace_back(0);
	int rounds = R.range(5, 20), lag = R.range(0, 60); Rx<int> ended(0);
	{ event_t one(true); auto a = one.operator co_await(); vs::aim_begin(); (void)a.await_ready(); vs::aim_end(85); }
	w.init = [&](int i) { go [&, i]() -> future_t<> { Rng r; r.seed(sd0 + (uint64_t)i); event_t ev = s.ev[0]; int polls = 0;
		while (!ended && polls < 200) { ++polls; bool timed = r.chance(50); int id = polls; vs::log(WAIT, (id * 4 + i), 0); bool ok = timed ? co_await ev.wait_for(dns(0)) : co_await ev.wait_until(tp(vs::now() - 5)); vs::log(DONE, (id * 4 + i), ok); if (ok) cover("poll got it"); } }; };
	w.ext.push_back([&, sd = R.next()] { Rng r; r.seed(sd); event_t& e = s.ev[0];
		for (int i = 0; i < rounds; ++i) {
			vs::log(SIGNAL, 0); e.signal(); vs::log(SIGNAL_END, 0);
			for (volatile int k = r.below(lag + 1); k > 0; k = k - 1) {}
			for (int b = r.range(1, 4); b > 0; --b) { vs::log(RESET, 0); e.reset(); vs::log(RESET_END, 0); for (volatile int k = r.below(lag / 2 + 1); k > 0; k = k - 1) {} }
			for (int y = r.range(0, 12); y > 0; --y) vs::yield(); }
		ended = 1; });
	w.start(); w.quiet(); reset_check(1); w.finish();
}
void run_mt_reset()
{
	vs::kind_name = kn;
	bool tiny = R.chance(50); if (tiny) vs::mean_interval(R.range(2, 8));
	Sys s; World w(tiny ? 1 : R.range(1, 2)); s.w = &w; s.open.resize((size_t)w.n);
	int ne = tiny ? 1 : R.range(1, 2);
	for (int i = 0; i < ne; ++i) { bool in = tiny || R.chance(50); s.ev.emplace_back(in); s.init.emplace_back(in); s.signals.emplace_back(0); }
	struct Sp { int sch, n; uint64_t seed; }; std::vector<Sp> sp; int nw = tiny ? 1 : R.range(1, 4);
	for (int i = 0; i < nw; ++i) sp.push_back(Sp{ R.below(w.n), R.range(1, 4), R.next() });
	w.init = [&](int i) { for (auto& q : sp) if (q.sch == i) { if (tiny) go reset_waiter(&s, i, -1, q.seed); else if (q.seed & 1) go mt_waiter(&s, i, 0, q.n, q.seed, i); else go reset_waiter(&s, i, q.n * 3, q.seed); } };
	w.after_batch = [&](int i) { s.after(i); };
	int nx = tiny ? R.range(1, 2) : R.range(1, 3), bias = tiny ? 101 : R.chance(40) ? 100 : R.range(20, 80);
	auto act = [&s, ne](Rng& r, int bias) { int k = r.below(ne); if (r.chance(bias)) { event_t& e = s.ev[(size_t)k]; vs::log(RESET, k); for (int b = bias == 100 ? r.range(1, 12) : 1; b > 0; --b) e.reset(); vs::log(RESET_END, k); } else s.signal(k); };
	for (int i = 0; i < nx; ++i) w.ext.push_back([&, n = bias == 101 ? R.range(1, 3) : R.range(2, bias == 100 ? 40 : 10), seed = R.next()] {
		Rng r; r.seed(seed);
		for (int j = 0; j < n; ++j) { act(r, bias); if (r.chance(20)) vs::yield(); } });
	w.start(); w.quiet();
	for (int round = 0; ; ++round) {
		REQUIRE(round < 300, "waits never settle");
		order_check(s, vs::log_size());
		int n = s.nops, pend = 0; std::vector<long> need((size_t)ne);
		for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (!o.done) { ++pend; ++need[(size_t)(int)o.ev0]; } }
		for (int k = 0; k < ne; ++k) {
			size_t last = 0; long after = 0, S = s.init[(size_t)k] + s.signals[(size_t)k], t = 0;
			for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (o.ev0 == k && o.done) ++t; }
			REQUIRE(t <= S, "%ld waits completed on event %d with %ld signals", t, k, S);
			for (size_t i = 0; i < vs::log_size(); ++i) { auto& e = vs::log_at(i); if (e.a == k && e.kind == RESET) last = i + 1; }
			for (size_t i = 0; i < vs::log_size(); ++i) { auto& e = vs::log_at(i); if (i >= last && e.a == k && e.kind == SIGNAL_END) ++after; }
			if (!last) after = S;
			if (need[(size_t)k]) { long c = probe(s, w, k); REQUIRE(c == 0, "a waiter of event %d is suspended although it has %ld credits", k, c); }
			if (need[(size_t)k]) {     // someone waits: every signal given since it began to wait was consumed
				for (int i = 0; i < n; ++i) { MOp& o = s.ops[(size_t)i]; if (o.done || o.ev0 != k) continue;
					size_t su = ~0ull; long since = 0, ends = 0;
					for (size_t j = 0; j < vs::log_size(); ++j) { auto& e = vs::log_at(j); if (e.kind == SUSP && e.a == i) su = j; if (j > su && e.kind == SIGNAL && e.a == k) ++since; if (j > su && e.kind == DONE && s.ops[(size_t)e.a].ev0 == k) ++ends; }
					REQUIRE(ends >= since, "wait %d is suspended although %ld of %ld signals since were consumed", i, ends, since); }
			} else {
				long c = probe(s, w, k); s.signals[(size_t)k] = S - s.init[(size_t)k] - c;
				REQUIRE(c <= after, "event %d has %ld credits but only %ld signals ended since its last reset", k, c, after);
				REQUIRE(t + c <= S, "event %d gave %ld credits and completed %ld waits with %ld signals", k, c, t, S);
				if (c) cover("credit survives reset"); else cover("no credit after resets");
			}
		}
		if (!pend) break;
		for (int k = 0; k < ne; ++k) if (need[(size_t)k]) s.signal(k);
		w.quiet();
	}
	w.finish();
}
#endif
} // namespace

#if PART == 1
FAMILY("E01,L01", ev_st_basic, 4, false) { run_st(0); }
FAMILY("E02,E01,L01", ev_st_timed, 4, false) { run_st(1); }
FAMILY("E03,L01,E01", ev_st_all, 4, false) { run_st(2); }
#else
FAMILY("E01,L01,R01,S03", ev_mt_basic, 4, true) { run_mt(0); }
FAMILY("E01,L01,R01", ev_mt_reset, 3, true) { run_mt_reset(); }
FAMILY("E01,L01,R01", ev_mt_tug, 1, true) { run_mt_tug(); }
FAMILY("E02,E01,L01,R01,S03", ev_mt_timed, 4, true) { run_mt(1); }
FAMILY("E01,E02,L01,R01", ev_mt_crowd, 4, true) { run_mt(3); }
FAMILY("E03,L01,R01,S03,E01", ev_mt_all, 4, true) { run_mt(2); }
#endif
