// Futures: F01 (delivery), F02 (results and exceptions through trees of coroutines); the trees also serve S03, S04.
#include "mon.h"
using namespace mon;

namespace {
enum { AWAIT = 1, SET, SET_END, GOT, ENTER, LEAVE, CAUGHT, VALUE, MOVED, SLEPT };
const char* kn(uint32_t k) { static const char* n[] = {"?", "AWAIT", "SET", "SET_END", "GOT", "ENTER", "LEAVE", "CAUGHT", "VALUE", "MOVED", "SLEPT"}; return k < 11 ? n[k] : "?"; }

struct E0 { long n; std::string pad; };
struct E3 : std::logic_error { long n; E3(long x) : std::logic_error("E3"), n(x) {} };
// an exception of the library itself, with its code and text
const char* const code_name[] = { "none", "not_ready", "already_acquired", "unlock_more", "read_before_write", "timer_canceled", "not_await_lock", "stop_requested" };
struct E5 : canceled_exception { long n; E5(long x) : canceled_exception((error_code)(x & 7)), n(x) {} };
[[noreturn]] void raise(int type, long n)
{
	switch (type) {
	case 0: throw E0{ n, std::string(40, 'e') };
	case 1: throw std::runtime_error("content " + std::to_string(n));
	case 2: throw (int)n;
	case 3: throw E3(n);
	case 5: throw E5(n);
	default: throw std::string(30, 's') + std::to_string(n);
	}
}
std::exception_ptr make_ex(int type, long n) { try { raise(type, n); } catch (...) { return std::current_exception(); } }
// inside a handler: what is it?
void classify(int& type, long& n)
{
	type = 9; n = 0;
	try { throw; }
	catch (const E0& e) { type = 0; n = e.pad == std::string(40, 'e') ? e.n : -1; }
	catch (const E5& e) { type = 5; n = (int)e._error == (e.n & 7) && e.what() == std::string("canceled_exception, code=") + code_name[e.n & 7] ? e.n : -1; }
	catch (const E3& e) { type = 3; n = std::string("E3") == e.what() ? e.n : -1; }
	catch (const std::runtime_error& e) { type = 1; n = std::string(e.what()).compare(0, 8, "content ") == 0 ? atol(e.what() + 8) : -1; }
	catch (int x) { type = 2; n = x; }
	catch (const std::string& s) { type = 4; n = s.size() > 30 ? atol(s.c_str() + 30) : -1; }
	catch (...) {}
}
constexpr int EXN = 6;

#if PART == 1 || PART == 2
// ------------------------------------------------------------------ F01: items, each a result on its way
struct Item {
	int id; int ex = -1; long v; Rx<int> set_started, set_done, awaited, got; uint64_t set_batch = 0; long plain = 0; bool unawaited = false;
	virtual ~Item() {}
	virtual void set(int how) = 0;
	virtual future_t<> consume(const uint64_t* batch, scheduler_t* mine, int shape) = 0;
	virtual void drop() = 0;
};
template<class T> struct V { using X = T; static T make(Item*, long v) { return Mk<T>::make(v); } static long get(const T& t) { return Mk<T>::get(t); } };
template<class T> struct Box { };
template<class T> struct ItemOf : Item {
	awaitable_t<T> a; std::vector<awaitable_t<T>> copies; std::unique_ptr<future_t<T>> early; Obj target{ -7 };
	ItemOf() { if (R.chance(40)) early = std::make_unique<future_t<T>>(a.get_future()); }
	void set(int how) override
	{
		awaitable_t<T> own = a;                       // the setter has its own copy
		plain = v * 3 + 1;
		set_started = 1; vs::log(SET, id, ex);
		if (ex >= 0) {
			if (how % 3 == 0 && ex == 2) own.throw_exception((int)v);
			else if (how % 3 == 1 && ex == 3) own.throw_exception(E3(v));
			else own.set_exception(make_ex(ex, v));
		} else if constexpr (std::is_void_v<T>) own.set_value();
		else if constexpr (std::is_same_v<T, Obj&>) { target.set(v); own.set_value(target); }
		else if constexpr (std::is_copy_constructible_v<T>) {
			if (how % 2) own.set_value(Mk<T>::make(v)); else { T t = Mk<T>::make(v); own.set_value(t); REQUIRE(Mk<T>::get(t) == v, "set_value took the value out of an lvalue"); }
		} else own.set_value(Mk<T>::make(v));
		REQUIRE(!own, "the awaitable still refers to the result it has delivered");
		set_done = 1; vs::log(SET_END, id);
	}
	void drop() override { early.reset(); { auto gone = std::move(a); } }
	future_t<T> fut() { if (early) { future_t<T> f = *early; early.reset(); return f; } return a.get_future(); }
	static future_t<T> wrap(future_t<T> f)
	{
		if constexpr (std::is_void_v<T>) co_await f; else co_return co_await f;
	}
	future_t<> consume(const uint64_t* batch, scheduler_t* mine, int shape) override
	{
		int type = -1; long c = 0; uint64_t b0 = batch ? *batch : 0;
		bool was_set = set_done; awaited = 1; vs::log(AWAIT, id, was_set);
		try {
			future_t<T> f = fut();
			if (shape & 4) { bool later = !set_done; if (!later) { auto gone = std::move(a); } }
			if (shape & 1) f = wrap(std::move(f));
			if constexpr (std::is_void_v<T>) { if (shape & 2) co_await f; else co_await std::move(f); c = v; }
			else if constexpr (std::is_same_v<T, Obj&>) { Obj& o = co_await f; REQUIRE(&o == &target, "another object came back for a reference"); c = o.get(); }
			else { if (shape & 2) { T t = co_await f; c = Mk<T>::get(t); } else { auto&& t = co_await std::move(f); c = Mk<T>::get(t); } }
		} catch (...) { classify(type, c); }
		vs::log(GOT, id, type);
		REQUIRE(!got, "result %d was delivered twice", id); got = 1;
		REQUIRE(set_started, "result %d was delivered before it was set", id);
		REQUIRE(type == ex, "result %d: exception kind %d, must be %d", id, type, ex);
		REQUIRE(c == v, "result %d: content %ld, must be %ld", id, c, v);
		REQUIRE(plain == v * 3 + 1, "what the setter wrote before is not visible");
		if (mine) REQUIRE(this_scheduler() == mine, "resumed on another scheduler's thread");
		if (was_set && !(shape & 1)) REQUIRE(!batch || *batch == b0, "awaiting a result that was there suspended");
		cover(type >= 0 ? (was_set ? "exception set before" : "exception set after") : (was_set ? "value set before" : "value set after"));
	}
};
std::unique_ptr<Item> make_item(int id)
{
	std::unique_ptr<Item> p;
	switch (R.below(8)) {
	case 0: p = std::make_unique<ItemOf<void>>(); break;
	case 1: p = std::make_unique<ItemOf<long>>(); break;
	case 2: p = std::make_unique<ItemOf<std::string>>(); break;
	case 3: p = std::make_unique<ItemOf<std::unique_ptr<Obj>>>(); break;
	case 4: p = std::make_unique<ItemOf<Obj>>(); break;
	case 5: p = std::make_unique<ItemOf<MObj>>(); break;
	case 6: p = std::make_unique<ItemOf<NObj>>(); break;
	default: p = std::make_unique<ItemOf<Obj&>>(); break;
	}
	p->id = id; p->v = 1000 + id * 7 + R.below(1000000); if (R.chance(35)) p->ex = R.below(EXN);
	return p;
}
#endif
#if PART == 1
struct Sys { std::vector<std::unique_ptr<Item>> it; uint64_t batch = 0, stamp = 0; int left = 0; };
future_t<> consumer(Sys* s, std::vector<int> ids)
{
	for (int id : ids) {
		if (R.chance(20)) co_await yield();
		co_await s->it[(size_t)id]->consume(&s->batch, nullptr, R.below(8));
	}
	--s->left;
}
void do_set(Sys* s, int id) { Item& i = *s->it[(size_t)id]; ++s->stamp; i.set(R.below(6)); i.set_batch = s->batch; }
future_t<> setter(Sys* s, std::vector<int> ids)
{
	for (int id : ids) {
		switch (R.below(4)) {
		case 0: co_await yield(); break;
		case 1: co_await dns(R.range(1, 5) * MS); break;
		case 2: co_await yield(); co_await yield(); break;
		default: break;
		}
		do_set(s, id);
	}
	--s->left;
}
void run_st()
{
	vs::kind_name = kn;
	auto sp = std::make_unique<Sys>(); Sys& s = *sp;
	int n = upto(1, 14, 150); for (int i = 0; i < n; ++i) s.it.push_back(make_item(i));
	int nc = upto(1, 4, 40), nsr = upto(0, 3, 20); std::vector<std::vector<int>> ci((size_t)nc), si((size_t)nsr); std::vector<int> by_main, by_timer;
	for (int i = 0; i < n; ++i) {
		if (R.chance(10)) { s.it[(size_t)i]->unawaited = true; if (R.chance(60)) do_set(&s, i); else { s.it[(size_t)i]->drop(); cover("dropped unset"); continue; } s.it[(size_t)i]->drop(); cover("result never awaited"); continue; }
		ci[(size_t)R.below(nc)].push_back(i);
		int q = R.below(100);
		if (q < 25) do_set(&s, i);
		else if (q < 55 && nsr) si[(size_t)R.below(nsr)].push_back(i);
		else if (q < 70) by_timer.push_back(i);
		else by_main.push_back(i);
	}
	std::unique_ptr<OwnScheduler> own; std::vector<scheduler_t*> ss{ G() }; if (R.chance(40)) { own = std::make_unique<OwnScheduler>(); ss.push_back(own.get()); cover("two schedulers on a thread"); }
	for (auto& c : ci) { ++s.left; *R.pick(ss) + consumer(&s, c); }
	for (auto& c : si) { ++s.left; *R.pick(ss) + setter(&s, c); }
	for (int i : by_timer) { Sys* q = &s; (void)G()->timer()->add(dns(R.range(0, 8) * MS), [q, i](bool) { do_set(q, i); }); }
	int guard = 0, calm = 0;
	for (;;) {
		std::vector<int> due; for (auto& i : s.it) if (i->set_done && i->awaited && !i->got && !i->unawaited) due.push_back(i->id);
		bool r = false; for (auto* x : ss) { ++s.batch; if (x->run_one_batch()) r = true; }
		if (r) calm = 0; else if (++calm < 2) r = true;      // a timer may have set something
		(void)due;
		REQUIRE(++guard < 20000, "never settles");
		if (r) { if (!by_main.empty() && R.chance(25)) { do_set(&s, by_main.back()); by_main.pop_back(); } continue; }
		for (auto& i : s.it) REQUIRE(!i->awaited || i->got || !i->set_done, "result %d was set and is awaited, but not delivered", i->id);
		if (!by_main.empty() && R.chance(50)) { do_set(&s, by_main.back()); by_main.pop_back(); continue; }
		if (s.left == 0 && by_main.empty() && G()->timer()->empty() && ss.back()->empty()) break;
		vs::set_now(vs::now() + R.range(1, 4) * MS);
	}
	for (auto& i : s.it) if (!i->unawaited) REQUIRE(i->got, "result %d was never delivered", i->id);
	for (auto* x : ss) REQUIRE(x->empty(), "scheduler not empty");
}
#elif PART == 2
struct Sys { std::vector<std::unique_ptr<Item>> it; World* w = nullptr; Rx<int> left; };
future_t<> consumer(Sys* s, std::vector<int> ids, int sch, uint64_t seed)
{
	Rng r; r.seed(seed);
	for (int id : ids) {
		if (r.chance(20)) co_await yield();
		if (r.chance(10)) { sch = r.below(s->w->n); co_await via(s->w->s(sch)); }
		co_await s->it[(size_t)id]->consume(nullptr, s->w->s(sch), r.below(8) & 3);
	}
	s->left.add(-1);
}
future_t<> setter(Sys* s, std::vector<int> ids, uint64_t seed)
{
	Rng r; r.seed(seed);
	for (int id : ids) { if (r.chance(30)) co_await yield(); s->it[(size_t)id]->set(r.below(6)); }
	s->left.add(-1);
}
void run_mt()
{
	vs::kind_name = kn;
	Sys s; World w(R.range(1, 3)); s.w = &w;
	int n = upto(2, 14, 40); for (int i = 0; i < n; ++i) s.it.push_back(make_item(i));
	struct Sp { int sch; std::vector<int> ids; uint64_t seed; bool set; }; std::vector<Sp> sp; int nx = R.range(1, 3);
	int nc = upto(1, 4, 14), nsr = upto(0, 2, 8);
	for (int i = 0; i < nc; ++i) sp.push_back(Sp{ R.below(w.n), {}, R.next(), false });
	for (int i = 0; i < nsr; ++i) sp.push_back(Sp{ R.below(w.n), {}, R.next(), true });
	std::vector<std::vector<int>> xi((size_t)nx);
	for (int i = 0; i < n; ++i) { sp[(size_t)R.below(nc)].ids.push_back(i); if (nsr && R.chance(30)) sp[(size_t)(nc + R.below(nsr))].ids.push_back(i); else xi[(size_t)R.below(nx)].push_back(i); }
	s.left = nc + nsr;
	w.init = [&](int i) { for (auto& q : sp) if (q.sch == i) { if (q.set) go setter(&s, q.ids, q.seed); else go consumer(&s, q.ids, i, q.seed); } };
	for (auto& v : xi) w.ext.push_back([&s, v, seed = R.next()] { Rng r; r.seed(seed); for (int id : v) { if (r.chance(30)) vs::yield(); s.it[(size_t)id]->set(r.below(6)); } });
	w.start(); w.quiet();
	for (auto& i : s.it) { REQUIRE(i->set_done, "set_value of %d did not return", i->id); REQUIRE(i->got, "result %d was set (%s) but never delivered", i->id, i->awaited ? "and is awaited" : "the consumer is stuck"); }
	REQUIRE(s.left == 0, "%d coroutines did not finish", (int)s.left);
	w.finish();
}
#else
// ------------------------------------------------------------------ F02: trees
enum Act { A_AWAIT, A_YIELD, A_SLEEP, A_VIA, A_THROW, A_QUERY };
struct Ac { int kind, child = -1, mode = 0, x = 0; };
struct Node { int type = 0; std::vector<Ac> acts[2]; };
constexpr int TYPES = 6;            // void long unique_ptr Obj Obj& string
struct Out { int ex = -1; long v = 0; };
struct Ctx {
	std::vector<Node> t; std::vector<long> log, want; std::deque<Obj> objs; Out want_out; Rx<int> cur; World* w = nullptr;
	state_base_t* root = nullptr; task_t* task = nullptr; Rx<int> finished; Rx<int> task_id; bool escape = false; std::atomic<long> locals{ 0 }; std::vector<scheduler_t*> ss;
	scheduler_t* sched() { return w ? w->s(cur) : ss[(size_t)(int)cur]; }
	void ev(int k, long a, long b) { log.push_back(k * 1000003L + a * 131L + b); vs::log((uint32_t)k, a, b); }
};
struct Loc { Ctx* c; int id, k; Obj o; Loc(Ctx* c_, int i, int k_) : c(c_), id(i), k(k_), o(i) { c->ev(ENTER, id, k); } Loc(const Loc&) = delete; ~Loc() { o.check(); c->ev(LEAVE, id, k); } };
struct Par { Obj o; Par(long v) : o(v) {} Par(Par&& p) = default; };
long norm(long v) { return v & 0xfffff; }
bool catches(int mode, int ex) { switch (mode) { case 0: return false; case 1: return ex == 0; case 2: return ex == 1 || ex == 3 || ex == 5; default: return true; } }

int gen(Ctx& c, Rng& r, int depth, bool mt)
{
	int id = (int)c.t.size(); c.t.emplace_back(); { c.t[(size_t)id].type = r.below(TYPES); }
	for (int h = 0; h < 2; ++h) {
		int n = r.below(4);
		for (int i = 0; i < n; ++i) {
			Ac a{ A_YIELD }; int q = r.below(100);
			if (q < 50 && depth > 0 && c.t.size() < (big ? 300u : 40u)) { a.kind = A_AWAIT; a.mode = r.below(6); a.x = r.below(EXN); a.child = gen(c, r, depth - 1, mt); }
			else if (q < 60) a.kind = A_YIELD;
			else if (q < 68) { a.kind = A_SLEEP; a.x = r.range(0, 3); }
			else if (q < 78) { a.kind = mt ? A_VIA : A_QUERY; a.x = r.below(8); }
			else if (q < 86) { a.kind = A_THROW; a.x = r.below(EXN); a.mode = r.below(1000); }
			else a.kind = A_QUERY;
			c.t[(size_t)id].acts[h].push_back(a);
		}
	}
	return id;
}
Out eval(Ctx& c, std::vector<long>& log, int id)
{
	auto ev = [&](int k, long a, long b) { log.push_back(k * 1000003L + a * 131L + b); };
	Node& n = c.t[(size_t)id]; long acc = id * 31 + 7; Out o;
	ev(ENTER, id, 0);
	for (int h = 0; h < 2 && o.ex < 0; ++h) {
		ev(ENTER, id, 1 + h);
		for (Ac& a : n.acts[h]) {
			if (a.kind == A_THROW) { o.ex = a.x; o.v = a.mode; }
			else if (a.kind == A_AWAIT) {
				Out k = eval(c, log, a.child);
				if (k.ex < 0) { acc = norm(acc * 1000003 + k.v); ev(VALUE, id, k.v); }
				else if (catches(a.mode, k.ex)) {
					ev(CAUGHT, k.ex, k.v);
					if (a.mode == 4) o = k;
					else if (a.mode == 5) { o.ex = a.x; o.v = k.v + 1; }
					else acc = norm(acc * 31 + k.ex * 1001 + k.v);
				} else o = k;
			}
			if (o.ex >= 0) break;
		}
		ev(LEAVE, id, 1 + h);
	}
	ev(LEAVE, id, 0);
	if (o.ex < 0) o.v = n.type == 0 ? 0 : acc;
	return o;
}
template<class T> future_t<T> node(Ctx* c, int id, Par par)
{
	Node& n = c->t[(size_t)id]; long acc = id * 31 + 7;
	{
		Loc a(c, id, 0);
		for (int h = 0; h < 2; ++h) {
			Loc b(c, id, 1 + h);
			for (size_t i = 0; i < n.acts[h].size(); ++i) {
				Ac& x = n.acts[h][i];
				switch (x.kind) {
				case A_YIELD: co_await yield(); break;
				case A_SLEEP: { int64_t t = vs::now() + x.x * MS; vs::add_deadline(t); if (c->w || (id & 1)) co_await sleep_until(tp(t)); else co_await sleep_for(dns(x.x * MS)); REQ("F02,T02,S03", vs::now() >= t, "sleep ended early"); break; }
				case A_VIA: { int k = x.x % (c->w ? c->w->n : (int)c->ss.size()); c->cur = k; co_await via(c->sched()); vs::log(MOVED, id, k); break; }
				case A_THROW: raise(x.x, x.mode);
				case A_QUERY: {
					auto* st = librf_root_state(); auto* sc = librf_current_scheduler(); auto* tk = librf_current_task();
					REQ("S04", st == c->root, "librf_root_state() differs inside one task");
					REQ("S04", sc == c->sched(), "librf_current_scheduler() is not the scheduler that runs the coroutine");
					REQ("S04", tk == c->task && tk, "librf_current_task() is not the task that was spawned");
					cover("queried in depth"); break; }
				case A_AWAIT: {
					Par p(id * 1000 + (long)i); int ct = c->t[(size_t)x.child].type; long v = 0; bool failed = false; int et = -1; long en = 0;
					try {
						switch (ct) {
						case 0: co_await node<void>(c, x.child, std::move(p)); break;
						case 1: v = co_await node<long>(c, x.child, std::move(p)); break;
						case 2: { auto u = co_await node<std::unique_ptr<Obj>>(c, x.child, std::move(p)); v = u->get(); break; }
						case 3: { Obj u = co_await node<Obj>(c, x.child, std::move(p)); v = u.get(); break; }
						case 4: { Obj& u = co_await node<Obj&>(c, x.child, std::move(p)); v = u.get(); break; }
						default: { std::string u = co_await node<std::string>(c, x.child, std::move(p)); v = Mk<std::string>::get(u); break; }
						}
					}
					catch (const E0&) { if (x.mode == 0 || x.mode == 2) throw; failed = true; classify(et, en); c->ev(CAUGHT, et, en); if (x.mode == 4) throw; if (x.mode == 5) raise(x.x, en + 1); }
					catch (const std::exception&) { if (x.mode == 0 || x.mode == 1) throw; failed = true; classify(et, en); c->ev(CAUGHT, et, en); if (x.mode == 4) throw; if (x.mode == 5) raise(x.x, en + 1); }
					catch (...) { if (x.mode < 3) throw; failed = true; classify(et, en); c->ev(CAUGHT, et, en); if (x.mode == 4) throw; if (x.mode == 5) raise(x.x, en + 1); }
					if (failed) acc = norm(acc * 31 + et * 1001 + en); else { acc = norm(acc * 1000003 + v); c->ev(VALUE, id, v); }
					break; }
				}
				if (c->w) REQ("S03,F02", this_scheduler() == c->sched(), "a coroutine runs on a thread that is not its scheduler's");
			}
		}
		par.o.check();
	}
	if constexpr (std::is_void_v<T>) co_return;
	else if constexpr (std::is_same_v<T, Obj&>) { c->objs.emplace_back(acc); co_return c->objs.back(); }
	else { if constexpr (std::is_copy_constructible_v<T>) if (acc & 1) { Kept<T> k(acc, "co_return"); T& t = k.t; co_return t; } co_return Mk<T>::make(acc); }
}
future_t<> root(Ctx* c)
{
	c->root = librf_root_state(); c->task = librf_current_task();
	int et = -1; long en = 0, v = 0;
	if (c->escape) {
		struct F { Ctx* c; ~F() { c->finished = 1; } } f{ c };
		co_await node<void>(c, 0, Par(1));
	} else {
		try { co_await node<void>(c, 0, Par(1)); } catch (...) { classify(et, en); v = en; }
		REQUIRE(et == c->want_out.ex, "the task ended with exception kind %d, must be %d", et, c->want_out.ex);
		if (et >= 0) REQUIRE(en == c->want_out.v, "exception content %ld, must be %ld", en, c->want_out.v);
		c->finished = 1;
	}
	(void)v;
}
void check_log(Ctx& c)
{
	REQUIRE(c.finished, "a task did not finish");
	size_t n = std::min(c.log.size(), c.want.size());
	for (size_t i = 0; i < n; ++i) if (c.log[i] != c.want[i]) { long k = c.want[i] / 1000003; REQ("F02", false, "step %zu of the task differs from what its code says (%ld, must be %ld: %s)", i, c.log[i], c.want[i], kn((uint32_t)k)); }
	REQ("F02", c.log.size() == c.want.size(), "the task took %zu steps, must be %zu", c.log.size(), c.want.size());
	if (c.want_out.ex >= 0) cover(c.escape ? "exception leaves a detached task" : "exception reaches the root"); else cover("tree ends with a value");
}
std::unique_ptr<Ctx> make_tree(bool mt)
{
	auto c = std::make_unique<Ctx>(); int depth = upto(0, 6, 40); gen(*c, R, depth, mt); c->t[0].type = 0;
	c->want_out = eval(*c, c->want, 0); c->escape = R.chance(25); if (depth >= 5) cover("deep tree");
	return c;
}
void texts()
{
	static const struct { error_code c; const char* s; } k[] = { { error_code::none, "none" }, { error_code::not_ready, "not_ready" }, { error_code::already_acquired, "already_acquired" }, { error_code::unlock_more, "unlock_more" },
		{ error_code::read_before_write, "read_before_write" }, { error_code::timer_canceled, "timer_canceled" }, { error_code::not_await_lock, "not_await_lock" }, { error_code::stop_requested, "stop_requested" } };
	auto& x = k[(size_t)R.below(8)];
	auto has = [&](const char* what, const char* cls) { REQUIRE(strstr(what, x.s) && strstr(what, cls), "text \"%s\" does not tell %s of %s", what, x.s, cls); };
	REQUIRE(!strcmp(get_error_string(x.c, nullptr), x.s), "text of code %d is %s", (int)x.c, get_error_string(x.c, nullptr));
	future_exception f(x.c); mutex_exception m(x.c); channel_exception h(x.c); canceled_exception cc(x.c);
	has(f.what(), "future_exception"); has(m.what(), "mutex_exception"); has(h.what(), "channel_exception"); has(cc.what(), "canceled_exception");
	REQUIRE(f._error == x.c && m._error == x.c && h._error == x.c && cc._error == x.c, "error code changed");
}
void run_tree_st()
{
	vs::kind_name = kn; texts();
	int nt = R.range(1, 4); std::vector<std::unique_ptr<Ctx>> cs; std::unique_ptr<OwnScheduler> own; std::vector<scheduler_t*> ss{ G() };
	if (R.chance(40)) { own = std::make_unique<OwnScheduler>(); ss.push_back(own.get()); cover("two schedulers on a thread"); }
	for (int i = 0; i < nt; ++i) { cs.push_back(make_tree(own != nullptr)); cs.back()->ss = ss; cs.back()->cur = R.below((int)ss.size()); }
	for (auto& c : cs) { Ctx* p = c.get(); task_t* t; scheduler_t* on = p->sched(); if (R.chance(50)) t = *on + root(p); else t = *on + [p]() -> future_t<> { return root(p); }; (void)t; }
	int guard = 0;
	for (;;) { for (size_t q = 0; q < 2;) { ++q; for (auto* x : ss) while (x->run_one_batch()) { q = 0; REQUIRE(++guard < 20000, "never settles"); } } if (G()->empty() && ss.back()->empty()) break; vs::set_now(vs::now() + MS); REQUIRE(++guard < 20000, "never settles"); }
	for (auto& c : cs) check_log(*c);
	for (size_t a = 0; a < cs.size(); ++a) for (size_t b = 0; b < a; ++b) REQ("S04", cs[a]->root != cs[b]->root || true, "");
	// a cancelled sleep surfaces with its code and text
	auto seen = std::make_shared<int>(0);
	go [](std::shared_ptr<int> s) -> future_t<> { try { co_await dns(5 * MS); } catch (const canceled_exception& e) { *s = e._error == error_code::timer_canceled && strstr(e.what(), "timer_canceled") ? 1 : 2; } }(seen);
	settle(); G()->timer()->clear(); settle();
	REQUIRE(*seen == 1, "a cancelled sleep ended with %d", *seen);
	cs.clear(); REQUIRE(G()->empty(), "scheduler not empty");
}
// tasks that co_yield: one turn each, values replaced, then a value or an exception as the end
struct YT { int id, n, how, ex; int turns = 0, gone = 0, asked = 0, read = 0; bool ended = false; int64_t pass = -1; long cell = 0; };
struct YGone { YT* y; Obj o; YGone(YT* p) : y(p), o(p->id) {} YGone(const YGone&) = delete; ~YGone() { o.check(); ++y->gone; vs::log(LEAVE, y->id, y->turns); } };
uint64_t yt_pass;
void yturn(YT* y) { REQUIRE(y->pass != (int64_t)yt_pass, "task %d went on although it had given its turn up", y->id); y->pass = (int64_t)yt_pass; ++y->turns; vs::log(VALUE, y->id, y->turns); }
template<class T> future_t<T> ytask(YT* y, Par a)
{
	YGone g(y); yturn(y);
	for (int i = 0; i < y->n; ++i) {
		if constexpr (std::is_void_v<T>) co_await yield(); else if constexpr (std::is_reference_v<T>) { y->cell = i; co_yield y->cell; } else { if constexpr (std::is_copy_constructible_v<T>) if (i % 3 == 2) { Kept<T> v(i, "co_yield"); co_yield v.t; goto done; } if (i & 1) { T v = Mk<T>::make(i); co_yield std::move(v); } else co_yield Mk<T>::make(i); }
	done:;
		yturn(y); REQUIRE(a.o.get() == y->id && g.o.get() == y->id, "a variable changed over a co_yield");
		if (y->how == 3) { co_await yield(); yturn(y); }
	}
	y->ended = true;
	if (y->how == 1) { cover(y->n ? "exception after values" : "exception"); raise(y->ex, y->id); }
	if constexpr (std::is_void_v<T>) co_return; else if constexpr (std::is_reference_v<T>) co_return y->cell; else co_return Mk<T>::make(99);
}
// who asks after the end is told how it ended, not what was yielded on the way
template<class T> future_t<> yread(future_t<T> f, YT* y)
{
	int et = -1; long en = 0, v = 99;
	try { if constexpr (std::is_void_v<T>) co_await f; else if constexpr (std::is_reference_v<T>) { long& r = co_await f; v = &r == &y->cell ? 99 : -1; } else { T r = co_await f; v = Mk<T>::get(r); } } catch (...) { classify(et, en); }
	if (y->how == 1) REQ("F02,F01", et == y->ex && en == y->id, "task %d ended with exception %d(%d), who awaits it gets %d(%ld)", y->id, y->ex, y->id, et, en);
	else { REQ("F02,F01", et < 0, "task %d returned, who awaits it gets exception %d", y->id, et); REQ("F02,F01", v == 99, "task %d returned 99, who awaits it gets %ld", y->id, v); }
	++y->read; cover(y->how == 1 ? "exception of an ended task" : "value of an ended task");
}
template<class T> void yspawn(YT* y, std::vector<std::function<void()>>& later)
{
	if (R.chance(60)) { go ytask<T>(y, Par(y->id)); return; }
	auto f = std::make_shared<future_t<T>>(ytask<T>(y, Par(y->id))); go *f; y->asked = 1;
	later.push_back([f, y] { go yread<T>(std::move(*f), y); });
}
void run_ytask()
{
	vs::kind_name = kn; yt_pass = 1; std::deque<YT> v; int nt = upto(1, 8, 80); long base = g_live.load();
	for (int i = 0; i < nt; ++i) v.push_back(YT{ i, R.below(big ? 100 : 5), R.below(4), R.below(EXN) });
	std::vector<std::function<void()>> later;
	for (auto& y : v) { YT* p = &y; switch (R.below(6)) {
		case 0: yspawn<long>(p, later); break; case 1: yspawn<Obj>(p, later); break; case 2: yspawn<std::string>(p, later); break;
		case 3: yspawn<MObj>(p, later); break; case 4: yspawn<long&>(p, later); break; default: yspawn<void>(p, later); break; } }
	int guard = 0; while (G()->run_one_batch()) { ++yt_pass; REQUIRE(++guard < 1000, "never settles"); }
	for (auto& f : later) f();
	later.clear(); while (G()->run_one_batch()) REQUIRE(++guard < 1000, "never settles");
	for (auto& y : v) if (y.asked) REQ("F02,F01", y.read == 1, "the result of task %d, which has ended, was not delivered", y.id);
	for (auto& y : v) { int want = y.n + 1 + (y.how == 3 ? y.n : 0); REQUIRE(y.ended && y.turns == want, "task %d took %d turns, must be %d", y.id, y.turns, want); REQUIRE(y.gone == 1, "the locals of task %d were destroyed %d times", y.id, y.gone); }
	REQUIRE(G()->empty(), "scheduler not empty"); REQUIRE(g_live.load() == base, "%ld objects are left over", g_live.load() - base);
}
void run_tree_mt()
{
	vs::kind_name = kn;
	World w(R.range(1, 3)); int nt = R.range(1, 4); std::vector<std::unique_ptr<Ctx>> cs;
	for (int i = 0; i < nt; ++i) { cs.push_back(make_tree(true)); cs.back()->w = &w; cs.back()->cur = R.below(w.n); }
	std::vector<int> at; for (auto& c : cs) at.push_back(c->cur);
	w.init = [&](int i) { for (size_t q = 0; q < cs.size(); ++q) if (at[q] == i) { auto& c = cs[q]; Ctx* p = c.get(); go root(p); } };
	if (R.chance(50)) vs::time_jitter((uint32_t)R.range(5, 60), R.range(1, 30) * 100000);
	w.start(); w.quiet(); vs::time_jitter(0, 0); w.finish();
	for (auto& c : cs) check_log(*c);
}
#endif
} // namespace

#if PART == 1
FAMILY("F01,L01,F02", fut_st, 4, false) { run_st(); }
#elif PART == 2
FAMILY("F01,L01,R01,S03,S01,F02", fut_mt, 4, true) { run_mt(); }
#else
FAMILY("F02,S04,L01,F01,S01", tree_st, 4, false) { run_tree_st(); }
FAMILY("F02,L01,F01,S01,S02", yield_task_st, 1, false) { run_ytask(); }
FAMILY("F02,S03,S04,L01,R01,F01", tree_mt, 4, true) { run_tree_mt(); }
#endif
#if PART == 1
// results whose copying and moving throw: the awaiter gets the value or the exception, nothing else, and nothing leaks
namespace {
struct Boom { long v; };
struct FPar { Obj o; FPar(long v) : o(v) {} FPar(FPar&& p) = default; };
struct Frail { Obj o; static int left; static long fails; void step() { if (left > 0 && --left == 0) { ++fails; left = -1; throw Boom{ o.get() }; } }
	explicit Frail(long v) : o(v) {} Frail(const Frail& f) : o((const_cast<Frail&>(f).step(), f.o)) {} Frail(Frail&& f) : o((f.step(), std::move(f.o))) {} Frail& operator=(const Frail& f) { const_cast<Frail&>(f).step(); o = f.o; return *this; } Frail& operator=(Frail&& f) { f.step(); o = std::move(f.o); return *this; } };
int Frail::left = -1; long Frail::fails = 0;
struct FT { int id, how, turns; int state = 0; long failed = 0; std::shared_ptr<Frail> kept; std::unique_ptr<awaitable_t<Frail>> aw; std::optional<future_t<Frail>> fu; };
future_t<Frail> frail_inner(FT* t) { co_await yield(); Frail& r = *t->kept; co_return r; }
future_t<Frail> frail(FT* t, FPar a) { Frail loc(t->id); for (int i = 0; i < t->turns; ++i) co_await yield(); REQUIRE(a.o.get() == t->id, "a parameter changed"); switch (t->how) { case 0: co_return Frail(t->id); case 1: co_return std::move(loc); case 2: { Frail& r = *t->kept; co_return r; } default: co_return co_await frail_inner(t); } }
future_t<> frail_user(FT* t)
{
	t->state = 1; long f0 = 0; (void)f0;
	try { if (t->how < 4) { Frail v = co_await frail(t, FPar(t->id)); REQUIRE(v.o.get() == t->id, "value %ld instead of %d", v.o.get(), t->id); } else { Frail v = co_await *t->fu; REQUIRE(v.o.get() == t->id, "value %ld instead of %d", v.o.get(), t->id); } t->state = 2; cover("value arrived"); }
	catch (const Boom& b) { REQUIRE(b.v == t->id, "the exception of another one"); t->state = 3; cover("copying threw"); }
	vs::log(GOT, t->id, t->state);
}
void run_frail()
{
	int n = R.range(1, 4); std::deque<FT> v; auto* g = G(); Frail::left = -1; Frail::fails = 0; long told = 0;
	for (int i = 0; i < n; ++i) { v.emplace_back(); auto& t = v.back(); t.id = i + 10; t.how = R.below(6); t.turns = R.below(3); t.kept = std::make_shared<Frail>(t.id); if (t.how >= 4) { t.aw = std::make_unique<awaitable_t<Frail>>(); t.fu.emplace(t.aw->get_future()); } }
	Frail::left = R.chance(85) ? R.range(1, 8) : -1;
	auto give = [&](FT& t) { if (!t.aw) return; for (int tries = 0; tries < 3; ++tries) { awaitable_t<Frail> a = *t.aw; try { if (t.how == 4) { a.set_value(*t.kept); REQUIRE(t.kept->o.get() == t.id, "set_value took the value out of an lvalue"); } else a.set_value(Frail(t.id)); t.aw.reset(); break; } catch (const Boom&) { ++told; cover("set_value threw"); } } };
	for (auto& t : v) { if (t.aw && R.chance(40)) give(t); *g + frail_user(&t); if (R.chance(50)) g->run_one_batch(); if (t.aw && R.chance(50)) give(t); }
	for (auto& t : v) give(t); settle();
	for (auto& t : v) { REQUIRE(t.state >= 2, "the awaiter of %d was never resumed", t.id); told += t.state == 3; REQUIRE(t.kept->o.get() == t.id, "a result was taken out of an lvalue"); } REQUIRE(told == Frail::fails, "%ld copies threw, %ld exceptions arrived", Frail::fails, told); REQUIRE(g->empty(), "tasks are left");
}
}
FAMILY("F01,F02,L01", frail_st, 1, false) { vs::kind_name = kn; run_frail(); }
#endif
