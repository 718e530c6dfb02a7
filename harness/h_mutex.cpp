// mutex_t: M01 (exclusion, recursion, handoff), M02 (try and timed), M03 (several at once).
#include "mon.h"
using namespace mon;

namespace {
enum { LOCK = 1, LOCK_FOR, TRY, DONE, REL, REL_END, SUSP, TIMEOUT, TIME, MULTI, MULTI_DONE, FOREIGN };
const char* kn(uint32_t k) { static const char* n[] = {"?", "LOCK", "LOCK_FOR", "TRY", "DONE", "REL", "REL_END", "SUSP", "TIMEOUT", "TIME", "MULTI", "MULTI_DONE", "FOREIGN"}; return k < 13 ? n[k] : "?"; }
using guard_t = batch_unlock_t<mutex_t>;
struct Oops { int n; };

#if PART == 1
// ------------------------------------------------------------------ single threaded, exact model
struct Op { int who, k; int64_t deadline = -1; bool decided = false, outcome = false, imm = false, done = false; uint64_t stamp = 0, batch = 0; };
struct Model {
	struct M { int owner = -1, count = 0; std::deque<int> q; };
	std::vector<M> m; std::vector<Op> ops; uint64_t stamp = 0, batch = 0; int pending = 0;
	int start(int who, int k, int64_t dl)
	{
		int id = (int)ops.size(); ops.push_back(Op()); Op& o = ops.back(); o.who = who; o.k = k; o.deadline = dl; o.stamp = ++stamp; o.batch = batch; ++pending;
		vs::log(dl < 0 ? LOCK : LOCK_FOR, id, who * 100 + k);
		M& x = m[(size_t)k];
		if (x.owner < 0 || x.owner == who) { if (x.owner == who) cover("recursive lock"); x.owner = who; ++x.count; o.decided = o.outcome = o.imm = true; }
		else { x.q.push_back(id); if (x.q.size() > 1) cover("several waiters"); }
		return id;
	}
	void done(int id, bool r)
	{
		Op& o = ops[(size_t)id]; vs::log(DONE, id, r);
		REQUIRE(!o.done, "lock %d was resumed twice", id); o.done = true; --pending;
		REQUIRE(o.decided, "lock %d returned %d although the mutex is held by another and its deadline has not come", id, r);
		REQUIRE(o.outcome == r, "lock %d returned %d, must be %d", id, r, o.outcome);
		REQUIRE(!o.imm || (o.stamp == stamp && o.batch == batch), "lock %d was suspended although the mutex was free or its own", id);
		if (o.deadline >= 0) cover(r ? "timed lock: true" : "timed lock: false");
		++stamp;
	}
	bool tr(int who, int k) { M& x = m[(size_t)k]; ++stamp; vs::log(TRY, who, k); if (x.owner < 0 || x.owner == who) { x.owner = who; ++x.count; cover("try_lock: true"); return true; } cover("try_lock: false"); return false; }
	void rel(int who, int k)
	{
		M& x = m[(size_t)k]; ++stamp; vs::log(REL, who, k);
		if (x.owner != who) { cover("unlock by another"); return; }
		if (--x.count) { cover("inner unlock"); return; }
		x.owner = -1;
		if (!x.q.empty()) { int id = x.q.front(); x.q.pop_front(); Op& o = ops[(size_t)id]; o.decided = o.outcome = true; x.owner = o.who; x.count = 1; cover("handoff"); }
	}
	void tick()
	{
		++batch; int64_t now = vs::now();
		for (size_t i = 0; i < ops.size(); ++i) { Op& o = ops[i]; if (o.decided || o.deadline < 0 || o.deadline > now) continue;
			o.decided = true; o.outcome = false; ++stamp; vs::log(TIMEOUT, (int64_t)i);
			auto& q = m[(size_t)o.k].q; for (auto it = q.begin(); it != q.end(); ++it) if (*it == (int)i) { if (q.size() > 1) cover("a waiter among others times out"); q.erase(it); break; } }
	}
	int64_t next_deadline() { int64_t b = INT64_MAX; for (auto& o : ops) if (!o.decided && o.deadline >= 0) b = std::min(b, o.deadline); return b; }
	void check_quiet() { for (size_t i = 0; i < ops.size(); ++i) REQUIRE(ops[i].done || !ops[i].decided, "lock %zu is left suspended although it has %s", i, ops[i].outcome ? "been handed the mutex" : "timed out"); }
};
struct Sys { Model m; std::vector<mutex_t> mx; bool timed = false; int left = 0; std::vector<int> main_depth[2]; char addr[2];
	void look() { for (size_t k = 0; k < mx.size(); ++k) REQUIRE(mx[k].is_locked() == (m.m[k].owner >= 0), "mutex %zu: is_locked() says %d, the model %d", k, mx[k].is_locked(), m.m[k].owner >= 0); } };
struct Held { int k; bool has_guard; guard_t g; };
struct W { Sys* s; int who; std::vector<Held> held;
	int own(int k) { int n = 0; for (auto& h : held) if (h.k == k) ++n; return n; }
	bool may_wait(int k) { if (own(k)) return true; for (auto& h : held) if (h.k >= k) return false; return true; } };
int64_t pick_dur() { switch (R.below(6)) { case 0: return 0; case 1: return -R.range(1, 1000); case 2: return R.range(1, 5) * U; default: return 1 + below_ns(30 * U); } }

future_t<> sub_lock(W* w, mutex_t m, int k, int depth)
{
	Sys* s = w->s;
	int id = s->m.start(w->who, k, -1);
	guard_t g = co_await m.lock();
	s->m.done(id, true);
	if (R.chance(40)) co_await yield();
	if (depth > 0 && R.chance(50)) co_await sub_lock(w, m, k, depth - 1);
	REQUIRE(m.is_locked(), "not locked inside");
	s->m.rel(w->who, k);
}
future_t<> throwing_lock(W* w, mutex_t m, int k)
{
	Sys* s = w->s;
	int id = s->m.start(w->who, k, -1);
	guard_t g = co_await m;
	s->m.done(id, true);
	if (R.chance(30)) co_await yield();
	s->m.rel(w->who, k);         // by the guard, while unwinding
	throw Oops{ k };
}
future_t<> release_one(W* w, size_t i)
{
	Sys* s = w->s; Held h = std::move(w->held[i]); w->held.erase(w->held.begin() + (long)i);
	int k = h.k; mutex_t& m = s->mx[(size_t)k];
	if (h.has_guard) {
		s->m.rel(w->who, k);
		switch (R.below(4)) {
		case 0: h.g.unlock(); h.g.unlock(); break;
		case 1: { guard_t t; t = std::move(h.g); } break;
		case 2: { guard_t t(std::move(h.g)); t.unlock(); } break;
		default: h.g = guard_t(); break;
		}
	} else {
		s->m.rel(w->who, k);
		if (R.chance(50)) co_await m.unlock(); else m.unlock(librf_root_state());
	}
	s->look();
}
// the operations, made at any call depth below the coroutine that owns
future_t<> take(W* w, int k, int kind, int depth)
{
	if (depth > 0) { if (R.chance(20)) co_await yield(); co_await take(w, k, kind, depth - 1); co_return; }
	Sys* s = w->s; int who = w->who; mutex_t m = s->mx[(size_t)k];
	if (kind == 0) { int id = s->m.start(who, k, -1); guard_t g = co_await m.lock(); s->m.done(id, true); w->held.push_back(Held{ k, true, std::move(g) }); }
	else if (kind == 1) { int id = s->m.start(who, k, -1); co_await m.lock(adopt_manual_unlock); s->m.done(id, true); w->held.push_back(Held{ k, false, {} }); }
	else if (kind == 2) {
		int64_t d = pick_dur(); int dk = dur_kind(d); int id = s->m.start(who, k, vs::now() + d); bool r;
		if (R.chance(50)) r = co_await as_dur(dk, d, [&](auto t) { return m.try_lock_for(t); }); else r = co_await as_tp(dk, vs::now() + d, [&](auto t) { return m.try_lock_until(t); });
		s->m.done(id, r); if (r) w->held.push_back(Held{ k, false, {} });
	} else {
		bool e = s->m.tr(who, k); bool r = co_await m.try_lock(); REQUIRE(r == e, "try_lock returned %d, must be %d", r, e);
		if (r) { if (R.chance(50)) w->held.push_back(Held{ k, true, guard_t(std::adopt_lock, librf_root_state(), m) }); else w->held.push_back(Held{ k, false, {} }); }
	}
}
int pick_depth() { return R.chance(50) ? 0 : R.range(1, 4); }
future_t<> release_deep(W* w, size_t i, int depth) { if (depth > 0) co_await release_deep(w, i, depth - 1); else co_await release_one(w, i); }
future_t<> worker(Sys* s, int who, int n)
{
	auto wp = std::make_unique<W>(); W* w = wp.get(); w->s = s; w->who = who;
	int nm = (int)s->mx.size();
	for (int i = 0; i < n; ++i) {
		int k = R.below(nm); mutex_t m = s->mx[(size_t)k];
		int q = R.below(100);
		if (q < 10) co_await yield();
		else if (q < 30 && w->may_wait(k)) {
			int kind = R.below(2), dp = pick_depth(); if (dp == 0 || w->own(k) || R.chance(50)) co_await take(w, k, kind, dp);
			else if (kind == 0) { int id = s->m.start(who, k, -1); guard_t g = co_await m.lock(); s->m.done(id, true); w->held.push_back(Held{ k, true, std::move(g) }); }
			else { int id = s->m.start(who, k, -1); co_await m.lock(adopt_manual_unlock); s->m.done(id, true); w->held.push_back(Held{ k, false, {} }); }
		} else if (q < 40 && w->may_wait(k)) co_await sub_lock(w, m, k, R.below(3));
		else if (q < 45 && w->may_wait(k)) {
			bool caught = false; try { co_await throwing_lock(w, m, k); } catch (const Oops& o) { caught = o.n == k; }
			REQUIRE(caught, "the exception was lost"); s->look(); cover("scope left by an exception");
		} else if (q < (s->timed ? 70 : 52)) {
			bool tm = s->timed && R.chance(65);
			if (R.chance(50)) co_await take(w, k, tm ? 2 : 3, R.below(4));
			else if (tm) {
				int64_t d = pick_dur(); int dk = dur_kind(d); int id = s->m.start(who, k, vs::now() + d); bool r;
				if (R.chance(50)) r = co_await as_dur(dk, d, [&](auto t) { return m.try_lock_for(t); }); else r = co_await as_tp(dk, vs::now() + d, [&](auto t) { return m.try_lock_until(t); });
				s->m.done(id, r); if (r) w->held.push_back(Held{ k, false, {} });
			} else {
				bool e = s->m.tr(who, k); bool r = co_await m.try_lock(); REQUIRE(r == e, "try_lock returned %d, must be %d", r, e);
				if (r) { if (R.chance(50)) w->held.push_back(Held{ k, true, guard_t(std::adopt_lock, librf_root_state(), m) }); else w->held.push_back(Held{ k, false, {} }); }
			}
		} else if (q < 75 || w->held.size() > (big ? 40u : 4u)) { if (!w->held.empty()) co_await release_deep(w, (size_t)R.below((int)w->held.size()), pick_depth()); }
		else if (q < 82 && w->held.size() >= 2) {      // one guard takes over another's mutex: its own is released
			size_t a = 0, b = 1; if (w->held[a].has_guard && w->held[b].has_guard) {
				s->m.rel(who, w->held[a].k); w->held[a].g = std::move(w->held[b].g); w->held[a].k = w->held[b].k; w->held.erase(w->held.begin() + 1); s->look(); cover("guard assigned over a guard"); }
		} else if (q < 88 && !w->own(k)) { s->m.rel(who, k); if (R.chance(50)) co_await m.unlock(); else m.unlock(librf_root_state()); s->look(); }      // not the owner: nothing happens
		else if (q < 92 && !w->held.empty()) { auto t = std::move(w->held); if (R.chance(50)) co_await yield(); w->held = std::move(t); }
	}
	while (!w->held.empty()) { if (R.chance(30)) co_await yield(); co_await release_one(w, (size_t)R.below((int)w->held.size())); }
	--s->left;
}
void run_st(bool timed)
{
	vs::kind_name = kn;
	auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.timed = timed;
	int nm = upto(1, 3, 9); s.m.m.resize((size_t)nm); for (int i = 0; i < nm; ++i) s.mx.emplace_back();
	int nw = upto(1, 6, 45); s.left = nw;
	for (int i = 0; i < nw; ++i) go worker(&s, i, upto(2, 14, 60));
	for (auto& d : s.main_depth) d.assign((size_t)nm, 0);
	auto main_op = [&] {
		int a = R.below(2), k = R.below(nm), who = 50 + a; void* ad = &s.addr[a]; int& dep = s.main_depth[a][(size_t)k];
		switch (R.below(6)) {
		case 0: case 1: { bool e = s.m.tr(who, k), r = s.mx[(size_t)k].try_lock(ad); REQUIRE(e == r, "try_lock(address) returned %d, must be %d", r, e); dep += r; break; }
		case 2: { bool e = s.m.tr(who, k), r = R.chance(50) ? s.mx[(size_t)k].try_lock_for(dns(-R.range(1, 100)), ad) : s.mx[(size_t)k].try_lock_until(tp(vs::now() - R.range(1, 100)), ad); REQUIRE(e == r, "try_lock_for(address) returned %d, must be %d", r, e); dep += r; break; }
		case 3: if (s.m.m[(size_t)k].owner < 0 || s.m.m[(size_t)k].owner == who) { s.m.tr(who, k); s.mx[(size_t)k].lock(ad); ++dep; } break;
		default: s.m.rel(who, k); s.mx[(size_t)k].unlock(ad); if (dep) --dep; break;
		}
		s.look();
	};
	int guard = 0;
	for (;;) {
		while (s.m.tick(), G()->run_one_batch()) { REQUIRE(++guard < 20000, "locks never settle"); s.look(); if (R.chance(25)) main_op(); if (timed && R.chance(15)) vs::set_now(vs::now() + 1 + below_ns(3 * U)); }
		s.m.check_quiet();
		REQUIRE(++guard < 20000, "locks never settle");
		for (size_t k = 0; k < s.m.m.size(); ++k) REQUIRE(s.m.m[k].owner >= 0 || s.m.m[k].q.empty(), "model");
		if (!s.m.pending) { if (s.left == 0) break; }
		int64_t nd = s.m.next_deadline();
		if (nd != INT64_MAX && R.chance(60)) {
			int64_t t = nd; int q = R.below(4); if (q == 0) t = nd - 1; else if (q == 1) t = nd + R.below(5000000);
			if (t > vs::now()) vs::set_now(t);
			if (R.chance(40)) main_op();            // after the deadline, before the scheduler has run
			vs::log(TIME, vs::now() - nd);
		} else if (R.chance(30)) main_op();
		else for (int a = 0; a < 2; ++a) for (int k = 0; k < nm; ++k) if (s.main_depth[a][(size_t)k]) { --s.main_depth[a][(size_t)k]; s.m.rel(50 + a, k); s.mx[(size_t)k].unlock(&s.addr[a]); }
	}
	for (int a = 0; a < 2; ++a) for (int k = 0; k < nm; ++k) while (s.main_depth[a][(size_t)k]) { --s.main_depth[a][(size_t)k]; s.m.rel(50 + a, k); s.mx[(size_t)k].unlock(&s.addr[a]); }
	s.look();
	for (int k = 0; k < nm; ++k) { char c; REQUIRE(!s.mx[(size_t)k].is_locked(), "mutex %d is still locked when everybody has let go", k); REQUIRE(s.mx[(size_t)k].try_lock(&c), "mutex %d cannot be taken", k); s.mx[(size_t)k].unlock(&c); REQUIRE(!s.mx[(size_t)k].is_locked(), "unlock did not free"); }
	vs::set_now(vs::now() + std::max(3600 * 1000 * MS, 40 * U)); settle();
	REQUIRE(G()->empty(), "scheduler not empty");
}

// several at once: holders are watched from outside
struct MSys { std::vector<mutex_t> mx; std::vector<int> holder, depth; int trying = 0, left = 0; long got = 0;
	void in(int who, int k) { auto i = (size_t)k; REQUIRE(holder[i] < 0 || holder[i] == who, "mutex %d was given to %d while %d holds it", k, who, holder[i]); REQUIRE(mx[i].is_locked(), "mutex %d is not locked although it was just acquired", k); holder[i] = who; ++depth[i]; ++got; }
	void out(int who, int k) { auto i = (size_t)k; REQUIRE(holder[i] == who, "mutex %d changed hands", k); if (--depth[i] == 0) holder[i] = -1; }
	void look() { for (size_t k = 0; k < mx.size(); ++k) { if (holder[k] >= 0) REQUIRE(mx[k].is_locked(), "mutex %zu was released while it is held", k); else if (!trying) REQUIRE(!mx[k].is_locked(), "mutex %zu is locked although nobody holds or wants it", k); } } };
template<class... M> future_t<> multi(MSys* s, int who, std::vector<int> sel, M... m)
{
	auto in_all = [&] { --s->trying; vs::log(MULTI_DONE, who, sel[0]); for (int k : sel) s->in(who, k); s->look(); };
	auto out_all = [&] { vs::log(REL, who, sel[0]); for (int k : sel) s->out(who, k); };
	vs::log(MULTI, who, (int64_t)sel.size()); ++s->trying;
	switch (R.below(5)) {
	case 4: {          // taken twice; one guard takes over the other
		auto g = co_await mutex_t::lock(m...); in_all(); if (R.chance(30)) co_await yield();
		++s->trying; auto h = co_await mutex_t::lock(m...); in_all(); if (R.chance(30)) co_await yield();
		g = std::move(h); out_all(); s->look(); cover("guard of several assigned over a guard");
		if (R.chance(50)) { h.unlock(); s->look(); }
		if (R.chance(30)) { auto& self = g; g = std::move(self); s->look(); }
		if (R.chance(30)) co_await yield(); s->look(); out_all(); if (R.chance(50)) { g.unlock(); s->look(); g.unlock(); }
		break; }
	case 0: {
		auto g = co_await mutex_t::lock(m...); in_all();
		int y = R.below(4); while (y-- > 0) { co_await yield(); s->look(); }
		if (R.chance(50)) { auto h = std::move(g); if (R.chance(50)) co_await yield(); s->look(); out_all(); h.unlock(); s->look(); h.unlock(); }
		else out_all();
		break; }
	case 1: {
		co_await mutex_t::lock(adopt_manual_unlock, m...); in_all();
		int y = R.below(4); while (y-- > 0) { co_await yield(); s->look(); }
		out_all(); ++s->trying; co_await mutex_t::unlock(m...); --s->trying;
		break; }
	case 2: {
		co_await mutex_t::lock(adopt_manual_unlock, m...); in_all();
		if (R.chance(50)) co_await yield();
		out_all(); mutex_t::unlock(librf_root_state(), m...);
		break; }
	default: {
		bool caught = false;
		try { auto g = co_await mutex_t::lock(m...); in_all(); if (R.chance(50)) co_await yield(); out_all(); throw Oops{ who }; } catch (Oops& o) { caught = o.n == who; }
		REQUIRE(caught, "the exception was lost"); break; }
	}
	s->look();
}
future_t<> multi_n(MSys* s, int who, std::vector<int> sel)
{
	auto& m = s->mx;
	switch (sel.size()) {
	case 2: return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]]);
	case 3: return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]]);
	case 4: return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]]);
	case 5: return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]], m[(size_t)sel[4]]);
	default: cover("six mutexes or more"); if (sel.size() == 6) return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]], m[(size_t)sel[4]], m[(size_t)sel[5]]);
		return multi(s, who, sel, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]], m[(size_t)sel[4]], m[(size_t)sel[5]], m[(size_t)sel[6]]);
	}
}
std::vector<int> pick_set(Rng& r, int nm, int maxn)
{
	std::vector<int> a; for (int i = 0; i < nm; ++i) a.push_back(i);
	for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[(size_t)r.below((int)i)]);
	a.resize((size_t)std::min(nm, r.range(1, maxn))); return a;
}
future_t<> multi_deep(MSys* s, int who, std::vector<int> sel, int depth) { if (depth > 0) co_await multi_deep(s, who, sel, depth - 1); else co_await multi_n(s, who, sel); }
future_t<> multi_worker(MSys* s, int who, int n, int shared, int priv)
{
	for (int i = 0; i < n; ++i) {
		int q = R.below(100);
		if (q < 12) co_await yield();
		else if (q < 30) { int k = R.below(shared); ++s->trying; guard_t g = co_await s->mx[(size_t)k]; --s->trying; s->in(who, k); if (R.chance(60)) co_await yield(); s->out(who, k); }
		else if (q < 55) {             // a mutex of mine among them, already held: held once more, released once
			auto sel = pick_set(R, shared, 6); sel.insert(sel.begin() + R.range(0, (int)sel.size()), priv);
			guard_t g = co_await s->mx[(size_t)priv]; s->in(who, priv);
			co_await multi_n(s, who, sel); s->look();
			s->out(who, priv); cover("one of several already held");
		} else { auto sel = pick_set(R, shared, 6); while (sel.size() < 2) sel = pick_set(R, shared, 6); if (R.chance(30)) co_await multi_deep(s, who, sel, R.range(1, 3)); else co_await multi_n(s, who, sel); }
		s->look();
	}
	--s->left;
}
void run_multi()
{
	vs::kind_name = kn;
	auto sp = std::make_unique<MSys>(); MSys& s = *sp;
	int shared = upto(2, R.chance(30) ? 6 : 4, 12), nw = upto(1, 5, 24); bool crowd = big || R.chance(5);
	if (crowd) { if (!big) { shared = R.range(2, 5); nw = R.range(10, 22); } vs::more_steps(20); cover("a crowd wants several mutexes"); }
	for (int i = 0; i < shared + nw; ++i) s.mx.emplace_back(); s.holder.assign(s.mx.size(), -1); s.depth.assign(s.mx.size(), 0);
	s.left = nw; for (int i = 0; i < nw; ++i) go multi_worker(&s, i, crowd ? R.range(1, 5) : R.range(1, 6), shared, shared + i);
	char addr; int guard = 0; long seen = 0; bool held = false; std::vector<int> sel;
	while (G()->run_one_batch() || held) {
		if (s.got != seen) { seen = s.got; guard = 0; }       // who holds lets go within a few turns, so somebody must get something
		REQUIRE(++guard < 20000, "%d coroutines want mutexes, none of them gets any although they are all released", s.left);
		s.look();
		if (held && R.chance(30)) {
			for (int k : sel) s.out(90, k);
			if (sel.size() == 2) mutex_t::unlock(&addr, s.mx[(size_t)sel[0]], s.mx[(size_t)sel[1]]); else mutex_t::unlock(&addr, s.mx[(size_t)sel[0]], s.mx[(size_t)sel[1]], s.mx[(size_t)sel[2]]);
			held = false; s.look();
		} else if (!held && R.chance(15)) {
			bool free = true; for (auto& m : s.mx) if (m.is_locked()) free = false;
			if (!free) continue;
			sel = pick_set(R, shared, 3); while (sel.size() < 2) sel = pick_set(R, shared, 3);
			auto& a = s.mx[(size_t)sel[0]]; auto& b = s.mx[(size_t)sel[1]];
			if (R.chance(50)) {
				if (sel.size() == 2) { auto g = mutex_t::lock(&addr, a, b); for (int k : sel) s.in(90, k); s.look(); for (int k : sel) s.out(90, k); if (R.chance(50)) { auto h = std::move(g); } else { g.unlock(); s.look(); g.unlock(); } }
				else { auto& c = s.mx[(size_t)sel[2]]; auto g = mutex_t::lock(&addr, a, b, c); for (int k : sel) s.in(90, k); s.look(); for (int k : sel) s.out(90, k); }
				s.look();
			} else {
				if (sel.size() == 2) mutex_t::lock(adopt_manual_unlock, &addr, a, b); else mutex_t::lock(adopt_manual_unlock, &addr, a, b, s.mx[(size_t)sel[2]]);
				for (int k : sel) s.in(90, k); held = true; s.look(); cover("held by an address across batches");
			}
		}
	}
	REQUIRE(s.left == 0, "%d coroutines are stuck", s.left);
	REQUIRE(s.trying == 0, "harness");
	s.look();
	for (auto& m : s.mx) REQUIRE(!m.is_locked(), "a mutex is still locked when everybody has let go");
	REQUIRE(G()->empty(), "scheduler not empty");
}
#else
// ------------------------------------------------------------------ several threads
struct MOp { Rx<int> who, k, done, result, timed, coro; Rx<int64_t> deadline; };
struct Sys {
	std::vector<mutex_t> mx; std::vector<MOp> ops; Rx<int> nops, ndone, left; World* w = nullptr; bool timed = false; int total = 0;
	std::vector<Rx<int>> holder; std::vector<long> data; std::vector<Rx<long>> count; std::vector<std::vector<int>> open;
	Sys() : ops(1500) {}
	int start(int who, int k, int64_t dl, int sch, int kind)
	{
		int id = nops.add(1); REQUIRE(id < 1500, "harness: too many operations"); MOp& o = ops[(size_t)id]; o.who = who; o.k = k; o.deadline = dl; o.timed = dl > 0; o.coro = sch >= 0;
		if (sch >= 0) open[(size_t)sch].push_back(id);
		if (dl > 0) vs::add_deadline(dl);
		vs::log((uint32_t)kind, id, who * 100 + k); return id;
	}
	void end(int id, bool r) { MOp& o = ops[(size_t)id]; vs::log(DONE, id, r); REQUIRE(!o.done, "lock %d resumed twice", id); o.done = 1; o.result = r; ndone.add(1); }
	void in(int who, int k, int depth)
	{
		auto i = (size_t)k; int h = holder[i];
		if (depth == 0) { REQUIRE(h < 0, "mutex %d was given to %d while %d holds it", k, who, h); holder[i] = who; }
		else REQUIRE(h == who, "mutex %d changed hands (%d, held by %d)", k, h, who);
		REQUIRE(mx[i].is_locked(), "mutex %d is not locked although it is held", k);
		++data[i]; count[i].add(1);
	}
	void out(int who, int k, int depth) { auto i = (size_t)k; REQUIRE(holder[i] == who, "mutex %d changed hands (%d, held by %d)", k, (int)holder[i], who); REQUIRE(mx[i].is_locked(), "mutex %d is not locked although it is held", k); ++data[i]; count[i].add(1); if (depth == 1) holder[i] = -1; }
	void after(int i) { auto& o = open[(size_t)i]; for (int id : o) if (!ops[(size_t)id].done) vs::log(SUSP, id); o.clear(); }
};
struct Me { Sys* s; int who; Rng r; std::vector<int> depth; int sch; scheduler_t* mine() { return s->w->s(sch); }
	bool may_wait(int k) { if (depth[(size_t)k]) return true; for (int j = k; j < (int)depth.size(); ++j) if (depth[(size_t)j]) return false; return true; }
	void got(int k) { s->in(who, k, depth[(size_t)k]); ++depth[(size_t)k]; REQUIRE(sch < 0 || this_scheduler() == mine(), "resumed on another scheduler's thread"); }
	void drop(int k) { s->out(who, k, depth[(size_t)k]); --depth[(size_t)k]; vs::log(REL, who, k); }
	void dropped(int k) { vs::log(REL_END, who, k); } };
future_t<> pause(Me* m)
{
	if (m->r.chance(40)) co_await yield();
	if (m->r.chance(12) && m->s->w->n > 1) { m->sch = m->r.below(m->s->w->n); co_await via(m->mine()); REQUIRE(this_scheduler() == m->mine(), "via"); cover("moves while holding"); }
}
future_t<bool> deep_try(Me* m, mutex_t mx, int depth) { if (depth > 0) co_return co_await deep_try(m, mx, depth - 1); co_return co_await mx.try_lock(); }
future_t<> deep_unlock(mutex_t mx, int depth) { if (depth > 0) co_await deep_unlock(mx, depth - 1); else co_await mx.unlock(); }
future_t<> hold_one(Me* m, int k, int deeper)
{
	Sys* s = m->s; mutex_t mx = s->mx[(size_t)k]; Rng& r = m->r;
	int q = r.below(100);
	if (s->timed && q < 45) {
		int64_t d = r.chance(15) ? 0 : r.range(1, 20) * 100000; int64_t t = vs::now() + d;
		int id = s->start(m->who, k, t, m->sch, LOCK_FOR); bool res;
		if (r.chance(50)) res = co_await mx.try_lock_until(tp(t));
		else { auto aw = mx.try_lock_for(dns(d)); vs::add_deadline(vs::now() + d); res = co_await aw; }
		s->end(id, res);
		if (!res) { REQUIRE(vs::now() >= t, "lock %d gave up %lld ns before its deadline", id, (long long)(t - vs::now())); REQUIRE(!m->depth[(size_t)k], "a timed lock of a mutex already held failed"); cover("timed out"); co_return; }
		cover("timed lock taken");
	} else if (s->timed && q < 70) {
		auto before = vs::log_size(); (void)before; scheduler_t* here = this_scheduler();
		int id = s->start(m->who, k, -1, -1, TRY); bool res; if (r.chance(60)) res = co_await mx.try_lock(); else { res = co_await deep_try(m, mx, r.range(1, 3)); scheduler_t* at = this_scheduler(); REQUIRE(at == here, "try_lock in a sub-coroutine moved"); } s->end(id, res); REQUIRE(here == this_scheduler(), "try_lock moved");
		if (!res) { REQUIRE(!m->depth[(size_t)k], "try_lock of a mutex already held failed"); cover("try failed"); co_return; } cover("try succeeded");
	} else {
		if (!m->may_wait(k)) co_return;
		int id = s->start(m->who, k, -1, m->sch, LOCK);
		if (r.chance(60)) {
			guard_t g = co_await mx.lock(); s->end(id, true); m->got(k);
			co_await pause(m);
			if (deeper > 0) co_await hold_one(m, r.below((int)m->depth.size()), deeper - 1);
			m->drop(k);
			if (r.chance(30)) { guard_t h; h = std::move(g); } else g.unlock();
			m->dropped(k); co_return;
		}
		co_await mx.lock(adopt_manual_unlock); s->end(id, true);
	}
	m->got(k);
	co_await pause(m);
	if (deeper > 0) co_await hold_one(m, r.below((int)m->depth.size()), deeper - 1);
	m->drop(k); int uq = r.below(3); if (uq == 0) co_await mx.unlock(); else if (uq == 1) co_await deep_unlock(mx, r.range(1, 3)); else mx.unlock(librf_root_state()); m->dropped(k);
}
future_t<> mt_worker(Sys* s, int who, int sch, int n, uint64_t seed)
{
	auto mp = std::make_unique<Me>(); Me* m = mp.get(); m->s = s; m->who = who; m->r.seed(seed); m->sch = sch; m->depth.assign(s->mx.size(), 0);
	for (int i = 0; i < n; ++i) {
		co_await hold_one(m, m->r.below((int)s->mx.size()), m->r.below(3));
		if (m->r.chance(20)) co_await yield();
		if (m->r.chance(10)) { int k = m->r.below((int)s->mx.size()); vs::log(FOREIGN, who, k); co_await s->mx[(size_t)k].unlock(); }
	}
	s->left.add(-1);
}
void ext_worker(Sys* s, int who, int n, uint64_t seed)
{
	Me me{}; me.s = s; me.who = who; me.r.seed(seed); me.sch = -1; me.depth.assign(s->mx.size(), 0); Rng& r = me.r; char addr; void* ad = &addr;
	for (int i = 0; i < n; ++i) {
		int k = r.below((int)s->mx.size()); mutex_t& mx = s->mx[(size_t)k];
		int id = s->start(who, k, -1, -1, TRY); bool got;
		switch (r.below(3)) {
		case 0: mx.lock(ad); got = true; break;
		case 1: got = mx.try_lock(ad); break;
		default: { int64_t t = vs::now() + r.range(-5, 20) * 10000; got = mx.try_lock_until(tp(t), ad); if (!got) REQUIRE(vs::now() >= t, "try_lock_until(address) gave up early"); break; }
		}
		s->end(id, got);
		if (!got) { if (r.chance(30)) vs::yield(); if (r.chance(30)) { vs::log(FOREIGN, who, k); mx.unlock(ad); } continue; }
		me.got(k);
		if (r.chance(25)) { int id2 = s->start(who, k, -1, -1, TRY); bool again = mx.try_lock(ad); s->end(id2, again); REQUIRE(again, "try_lock of a mutex already held failed"); me.got(k); me.drop(k); mx.unlock(ad); me.dropped(k); REQUIRE(mx.is_locked(), "the inner unlock freed the mutex"); }
		if (r.chance(40)) vs::yield();
		me.drop(k); if (r.chance(50)) mx.unlock(ad); else { guard_t g(std::adopt_lock, ad, mx); } me.dropped(k);
	}
	s->left.add(-1);
}
void analyse(Sys& s)
{
	int n = s.nops; struct I { size_t st = ~0ull, su = ~0ull, en = ~0ull; int64_t et = 0; bool nested = false; };
	std::vector<I> x((size_t)n);
	struct Iv { size_t b, e; int who, k; }; std::vector<Iv> iv; std::map<int, std::pair<int, size_t>> dep;      // who*100+k
	for (size_t i = 0; i < vs::log_size(); ++i) { auto& e = vs::log_at(i); auto a = (size_t)e.a;
		switch (e.kind) {
		case LOCK: case LOCK_FOR: case TRY: x[a].st = i; break;
		case SUSP: x[a].su = i; break;
		case DONE: x[a].en = i; x[a].et = e.t; if (e.b) { auto& d = dep[s.ops[a].who * 100 + s.ops[a].k]; if (d.first++ == 0) d.second = x[a].st; else x[a].nested = true; } break;
		case REL_END: { auto& d = dep[(int)(e.a * 100 + e.b)]; if (--d.first == 0) iv.push_back(Iv{ d.second, i, (int)e.a, (int)e.b }); break; }
		} }
	for (size_t a = 0; a < x.size(); ++a) {
		MOp& A = s.ops[a];
		if (x[a].su != ~0ull && A.coro)                     // first come, first served
			for (size_t b = 0; b < x.size(); ++b) { MOp& B = s.ops[b]; if (a == b || B.k != A.k || !B.result || x[b].nested || x[b].st < x[a].su || x[b].en > x[a].en) continue;
				if (A.result) vs::fail("lock %zu got the mutex before lock %zu, which was waiting when it asked", b, a);
				REQUIRE(x[b].et >= A.deadline, "lock %zu got the mutex although lock %zu had waited longer and its deadline had not come", b, a); }
		if (A.result || A.timed) continue;
		bool held = false;                                   // a plain try failed: someone must have held it
		for (auto& v : iv) if (v.k == A.k && v.who != A.who && v.b < x[a].en && v.e > x[a].st) held = true;
		if (vs::log_at(x[a].st).kind == TRY) REQ("M02", held, "try %zu failed although nobody held the mutex", a);
	}
}
void run_mt(bool timed)
{
	vs::kind_name = kn;
	Sys s; s.timed = timed; World w(R.range(1, 3)); s.w = &w; s.open.resize((size_t)w.n);
	int nm = R.range(1, 3); for (int i = 0; i < nm; ++i) { s.mx.emplace_back(); s.holder.emplace_back(-1); s.data.push_back(0); s.count.emplace_back(0); }
	struct Sp { int sch, n; uint64_t seed; }; std::vector<Sp> sp; int nw = upto(2, 6, 16);
	for (int i = 0; i < nw; ++i) sp.push_back(Sp{ R.below(w.n), upto(1, 5, 20), R.next() });
	int nx = R.range(0, 2); if (w.n == 1 && nx == 0) nx = 1;
	s.left = nw + nx;
	w.init = [&](int i) { for (size_t q = 0; q < sp.size(); ++q) if (sp[q].sch == i) go mt_worker(&s, (int)q, i, sp[q].n, sp[q].seed); };
	w.after_batch = [&](int i) { s.after(i); };
	vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 30) * 100000);
	for (int i = 0; i < nx; ++i) w.ext.push_back([&s, i, n = upto(2, 8, 30), seed = R.next()] { ext_worker(&s, 20 + i, n, seed); });
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	analyse(s);
	for (int i = 0; i < (int)s.nops; ++i) REQUIRE(s.ops[(size_t)i].done, "lock %d is suspended for good (%s)", i, s.mx[(size_t)(int)s.ops[(size_t)i].k].is_locked() ? "the mutex is locked, nobody holds it" : "the mutex is free");
	REQUIRE(s.left == 0, "%d workers did not end", (int)s.left);
	for (auto& m : s.mx) REQUIRE(!m.is_locked(), "a mutex is still locked when everybody has let go");
	w.finish();
	for (int k = 0; k < nm; ++k) REQUIRE(s.data[(size_t)k] == s.count[(size_t)k], "updates inside the mutex were lost");
}

// several at once
struct MS2 { std::vector<mutex_t> mx; std::vector<Rx<int>> holder; std::vector<long> data; std::vector<Rx<long>> count; Rx<int> left; World* w = nullptr;
	void in(int who, int k) { auto i = (size_t)k; int h = holder[i]; REQUIRE(h < 0, "mutex %d was given to %d while %d holds it", k, who, h); holder[i] = who; REQUIRE(mx[i].is_locked(), "mutex %d is not locked", k); ++data[i]; count[i].add(1); }
	void out(int who, int k) { auto i = (size_t)k; REQUIRE(holder[i] == who, "mutex %d changed hands", k); REQUIRE(mx[i].is_locked(), "mutex %d was released while held", k); ++data[i]; count[i].add(1); holder[i] = -1; } };
std::vector<int> pick_set(Rng& r, int nm, int lo)
{
	std::vector<int> a; for (int i = 0; i < nm; ++i) a.push_back(i);
	for (size_t i = a.size(); i > 1; --i) std::swap(a[i - 1], a[(size_t)r.below((int)i)]);
	a.resize((size_t)r.range(lo, nm)); return a;
}
template<class... M> future_t<> co_multi(MS2* s, int who, std::vector<int> sel, Rng* r, M... m)
{
	auto in = [&] { vs::log(MULTI_DONE, who, sel[0]); for (int k : sel) s->in(who, k); };
	auto out = [&] { for (int k : sel) s->out(who, k); vs::log(REL, who, sel[0]); };
	vs::log(MULTI, who, sel[0]);
	if (r->chance(60)) {
		auto g = co_await mutex_t::lock(m...); in(); if (r->chance(50)) co_await yield();
		out(); if (r->chance(30)) { auto h = std::move(g); } else if (r->chance(50)) g.unlock();
	} else {
		co_await mutex_t::lock(adopt_manual_unlock, m...); in(); if (r->chance(50)) co_await yield();
		out(); if (r->chance(50)) co_await mutex_t::unlock(m...); else mutex_t::unlock(librf_root_state(), m...);
	}
}
future_t<> mt_multi_worker(MS2* s, int who, int n, uint64_t seed)
{
	auto rp = std::make_unique<Rng>(); Rng* r = rp.get(); r->seed(seed); int nm = (int)s->mx.size();
	for (int i = 0; i < n; ++i) {
		auto sel = pick_set(*r, nm, 1); auto& m = s->mx;
		if (sel.size() == 1) { guard_t g = co_await m[(size_t)sel[0]]; s->in(who, sel[0]); if (r->chance(40)) co_await yield(); s->out(who, sel[0]); }
		else if (sel.size() == 2) co_await co_multi(s, who, sel, r, m[(size_t)sel[0]], m[(size_t)sel[1]]);
		else if (sel.size() == 3) co_await co_multi(s, who, sel, r, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]]);
		else if (sel.size() == 4) co_await co_multi(s, who, sel, r, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]]);
		else { cover("five mutexes"); co_await co_multi(s, who, sel, r, m[(size_t)sel[0]], m[(size_t)sel[1]], m[(size_t)sel[2]], m[(size_t)sel[3]], m[(size_t)sel[4]]); }
		if (r->chance(20)) co_await yield();
	}
	s->left.add(-1);
}
void ext_multi(MS2* s, int who, int n, uint64_t seed)
{
	Rng r; r.seed(seed); char addr; int nm = (int)s->mx.size(); auto& m = s->mx;
	for (int i = 0; i < n; ++i) {
		auto sel = pick_set(r, nm, 2); if (sel.size() > 3 && r.chance(50)) sel.resize((size_t)r.range(2, 3)); auto& a = m[(size_t)sel[0]]; auto& b = m[(size_t)sel[1]];
		auto in = [&] { vs::log(MULTI_DONE, who, sel[0]); for (int k : sel) s->in(who, k); if (r.chance(40)) vs::yield(); for (int k : sel) s->out(who, k); vs::log(REL, who, sel[0]); };
		vs::log(MULTI, who, sel[0]);
		if (sel.size() == 2) {
			if (r.chance(50)) { auto g = mutex_t::lock(&addr, a, b); in(); if (r.chance(50)) g.unlock(); }
			else { mutex_t::lock(adopt_manual_unlock, &addr, a, b); in(); mutex_t::unlock(&addr, b, a); }
		} else if (sel.size() > 3) { auto& c = m[(size_t)sel[2]]; auto& d = m[(size_t)sel[3]]; if (sel.size() == 4) {
			if (r.chance(50)) { auto g = mutex_t::lock(&addr, a, b, c, d); in(); if (r.chance(50)) g.unlock(); }
			else { mutex_t::lock(adopt_manual_unlock, &addr, a, b, c, d); in(); mutex_t::unlock(&addr, d, c, a, b); } }
			else { auto& e = m[(size_t)sel[4]];
			if (r.chance(50)) { auto g = mutex_t::lock(&addr, a, b, c, d, e); in(); if (r.chance(50)) g.unlock(); }
			else { mutex_t::lock(adopt_manual_unlock, &addr, a, b, c, d, e); in(); mutex_t::unlock(&addr, e, d, c, a, b); } }
		} else { auto& c = m[(size_t)sel[2]];
			if (r.chance(50)) { auto g = mutex_t::lock(&addr, a, b, c); in(); auto h = std::move(g); }
			else { mutex_t::lock(adopt_manual_unlock, &addr, a, b, c); in(); mutex_t::unlock(&addr, c, a, b); } }
	}
	s->left.add(-1);
}
void run_mt_multi()
{
	vs::kind_name = kn;
	MS2 s; World w(R.range(1, 2)); s.w = &w;
	int nm = R.range(2, R.chance(30) ? 5 : 3); for (int i = 0; i < nm; ++i) { s.mx.emplace_back(); s.holder.emplace_back(-1); s.data.push_back(0); s.count.emplace_back(0); }
	struct Sp { int sch, n; uint64_t seed; }; std::vector<Sp> sp; int nw = upto(1, 4, 14);
	for (int i = 0; i < nw; ++i) sp.push_back(Sp{ R.below(w.n), upto(1, 4, 12), R.next() });
	int nx = R.range(nw == 1 || w.n == 1 ? 1 : 0, 2); s.left = nw + nx;
	w.init = [&](int i) { for (size_t q = 0; q < sp.size(); ++q) if (sp[q].sch == i) go mt_multi_worker(&s, (int)q, sp[q].n, sp[q].seed); };
	for (int i = 0; i < nx; ++i) w.ext.push_back([&s, i, n = upto(1, 4, 15), seed = R.next()] { ext_multi(&s, 20 + i, n, seed); });
	w.start(); w.quiet();
	REQUIRE(s.left == 0, "%d callers are stuck", (int)s.left);
	for (auto& m : s.mx) REQUIRE(!m.is_locked(), "a mutex is still locked when everybody has let go");
	w.finish();
	for (int k = 0; k < nm; ++k) REQUIRE(s.data[(size_t)k] == s.count[(size_t)k], "updates inside the mutex were lost");
}
#endif
} // namespace

#if PART == 1
FAMILY("M01,L01", mx_st, 4, false) { run_st(false); }
FAMILY("M02,L01,M01", mx_st_timed, 4, false) { run_st(true); }
FAMILY("M03,L01,M01", mx_st_multi, 4, false) { run_multi(); }
#else
FAMILY("M01,L01,R01,S03", mx_mt, 4, true) { run_mt(false); }
FAMILY("M02,L01,R01,S03,M01", mx_mt_timed, 4, true) { run_mt(true); }
FAMILY("M03,L01,R01,M01", mx_mt_multi, 4, true) { run_mt_multi(); }
#endif
