// Generators (G01).
#include "mon.h"
#include <optional>
using namespace mon;

namespace {
enum { NEW = 1, STEP, GONE, READ, DROP, MOVE, ASSIGN, SPAWN, BATCH };
const char* kn(uint32_t k) { static const char* n[] = {"?", "NEW", "STEP", "GONE", "READ", "DROP", "MOVE", "ASSIGN", "SPAWN", "BATCH"}; return k < 10 ? n[k] : "?"; }
// what one generator is to do, and what it has done
struct Plan { int id; int n; bool ret = true; Rx<int> pos{ -1 }, allowed{ -1 }, gone{ 0 }, params{ 0 }; long val(int i) const { return id * 1000L + i; } int last() const { return n; } };
struct Guard { Plan* p; Obj o; explicit Guard(Plan* q) : p(q), o(q->id) {} ~Guard() { o.check(); REQUIRE(p->gone.add(1) == 0, "the locals of a generator are destroyed twice"); vs::log(GONE, p->id); } Guard(const Guard&) = delete; };
struct Param { Plan* p; Obj o; explicit Param(Plan* q) : p(q), o(q->id) { q->params.add(1); } Param(const Param& a) : p(a.p), o(a.o) { p->params.add(1); } Param(Param&& a) noexcept : p(a.p), o(a.o) { p->params.add(1); } ~Param() { p->params.add(-1); } };
void reach(Plan* p, int i)
{
	vs::log(STEP, p->id, i); REQUIRE(p->pos == i - 1, "generator %d: its body goes from step %d to step %d", p->id, (int)p->pos, i);
	REQUIRE(p->allowed == i, "generator %d: its body runs step %d, %d was asked for", p->id, i, (int)p->allowed); p->pos = i;
}
template<class T> generator_t<T> gen(Plan* p, Param a, uint64_t seed)
{
	Guard g(p); Rng r; r.seed(seed);
	for (int i = 0; i < p->n; ++i) {
		reach(p, i);
		if (r.chance(50)) { T v = Mk<T>::make(p->val(i)); co_yield v; REQUIRE(Mk<T>::get(v) == p->val(i), "a local changed over a co_yield"); } else co_yield Mk<T>::make(p->val(i));
		g.o.check(); REQUIRE(a.o.get() == p->id, "a parameter changed");
	}
	reach(p, p->n);
	if constexpr (std::is_copy_constructible_v<T>) if (r.chance(30)) { Kept<T> k(p->val(p->n), "co_return"); T& t = k.t; co_return t; }
	if (r.chance(50)) co_return Mk<T>::make(p->val(p->n)); else { T v = Mk<T>::make(p->val(p->n)); co_return std::move(v); }
}
generator_t<> gen_void(Plan* p, Param a, uint64_t) { Guard g(p); for (int i = 0; i < p->n; ++i) { reach(p, i); co_yield_void; REQUIRE(a.o.get() == p->id, "a parameter changed"); } reach(p, p->n); co_return_void; }
std::atomic<long> g_alloc{ 0 };
template<class T> struct CountAlloc {
	using value_type = T; using is_always_equal = std::true_type; CountAlloc() {} template<class U> CountAlloc(const CountAlloc<U>&) {}
	T* allocate(size_t n) { g_alloc.fetch_add((long)(n * sizeof(T)), std::memory_order_relaxed); return static_cast<T*>(::operator new(n * sizeof(T))); } void deallocate(T* p, size_t n) { g_alloc.fetch_sub((long)(n * sizeof(T)), std::memory_order_relaxed); ::operator delete(p); }
	bool operator==(const CountAlloc&) const { return true; }
};
generator_t<long, CountAlloc<char>> gen_alloc(Plan* p, Param a, uint64_t) { Guard g(p); for (int i = 0; i < p->n; ++i) { reach(p, i); co_yield p->val(i); (void)a; } reach(p, p->n); co_return (int)p->val(p->n); }

#if PART == 1
template<class T> struct Val { static constexpr bool has = true; template<class It> static void check(It& it, long want, int id, int i) { for (int k = R.range(1, 2); k > 0; --k) { REQUIRE(Mk<T>::get(*it) == want, "generator %d: element %d is %ld instead of %ld", id, i, Mk<T>::get(*it), want); REQUIRE(&*it == it.operator->(), "generator %d: * and -> differ", id); } } };
template<> struct Val<std::nullptr_t> { static constexpr bool has = false; template<class It> static void check(It&, long, int, int) {} };
template<class G> struct Holder {
	std::optional<G> g; Plan* p = nullptr; std::optional<typename G::iterator> it; int at = -1; bool begun = false, ended = false;
};
// one type of generators: a few holders, random operations
template<class T, class G, class F> void run_type(F make)
{
	std::deque<Plan> plans; std::vector<Holder<G>> h(4); int made = 0;
	auto dead = [&](Plan* p) { if (!p) return; REQUIRE(p->params == 0, "the parameters of a dropped generator live on (%d)", (int)p->params); REQUIRE(p->gone == (p->pos >= 0 ? 1 : 0), "the locals of a dropped generator were destroyed %d times", (int)p->gone); };
	auto create = [&](Holder<G>& x) { plans.emplace_back(); Plan& p = plans.back(); p.id = made++; p.n = big && R.chance(30) ? R.below(2000) : R.below(6); vs::log(NEW, p.id, p.n); { Param a(&p); x.g.emplace(make(&p, a, R.next())); } x.p = &p; x.it.reset(); x.at = -1; x.begun = x.ended = false; REQUIRE(p.pos == -1, "the body of a generator runs before it is asked for"); };
	auto is_end = [&](Holder<G>& x) { bool e = *x.it == x.g->end(); REQUIRE((*x.it != x.g->end()) == !e, "comparison of iterators"); return e; };
	auto check = [&](Holder<G>& x) {
		if (!x.g || !x.begun) return; bool e = is_end(x); REQUIRE(e == x.ended, "generator %d ends %s", x.p ? x.p->id : -1, e ? "early" : "late");
		if (!e) Val<T>::check(*x.it, x.p->val(x.at), x.p->id, x.at);
		if (x.p) REQUIRE(x.p->pos <= x.at || x.ended, "generator %d runs ahead", x.p->id);
	};
	int n = upto(5, 60, 6000);
	for (int k = 0; k < n; ++k) {
		Holder<G>& x = h[(size_t)R.below(4)]; Holder<G>& y = h[(size_t)R.below(4)]; int q = R.below(100);
		if (!x.g) { if (R.chance(85)) create(x); else { x = Holder<G>(); x.g.emplace(); } }
		else if (q < 55) {
			if (!x.begun) {
				if (!x.p) { REQUIRE(x.g->begin() == x.g->end(), "an empty generator has elements"); continue; }
				x.p->allowed = 0; x.it.emplace(x.g->begin()); x.begun = true; x.at = 0; REQUIRE(x.p->pos == 0, "begin() did not run the body to its first element");
				if (x.p->n == 0) { x.ended = true; cover("nothing yielded"); } else vs::log(READ, x.p->id, 0);
			} else if (!x.ended) {
				Plan* p = x.p;
				if (x.at < p->n) { ++x.at; p->allowed = x.at; if (R.chance(50)) { auto& r = ++*x.it; REQUIRE(&r == &*x.it, "++ returns something else"); } else (*x.it)++; REQUIRE(p->pos == x.at, "generator %d did not advance", p->id); if (x.at == p->n) cover("returned value read"); }
				else { p->allowed = -7; ++*x.it; x.ended = true; cover("iterated to the end"); }
			}
			check(x);
		}
		else if (q < 65) { vs::log(DROP, x.p ? x.p->id : -1); if (x.begun && !x.ended) cover("dropped half way"); x.g.reset(); dead(x.p); x = Holder<G>(); }
		else if (q < 75) { // move construction
			if (&x == &y) continue; if (y.g) { y.g.reset(); dead(y.p); }
			y.g.emplace(std::move(*x.g)); y.p = x.p; y.it = x.it; y.at = x.at; y.begun = x.begun; y.ended = x.ended; vs::log(MOVE, x.p ? x.p->id : -1); cover("moved");
			REQUIRE(x.g->begin() == x.g->end(), "a moved-from generator has elements"); if (R.chance(50)) { x.g.reset(); x = Holder<G>(); } else { x.p = nullptr; x.it.reset(); x.begun = x.ended = false; x.at = -1; } check(y);
		}
		else if (q < 88) { // move assignment, also onto a running one and onto itself
			if (!y.g) { y = Holder<G>(); y.g.emplace(); }
			if (&x == &y) { auto& self = *x.g; self = std::move(*x.g); cover("assigned to itself"); check(x); continue; }
			vs::log(ASSIGN, y.p ? y.p->id : -1, x.p ? x.p->id : -1); Plan* old = y.p; if (old && y.begun) cover("assigned onto a running one"); y.it.reset(); *y.g = std::move(*x.g); dead(old);
			y.p = x.p; y.it = x.it; y.at = x.at; y.begun = x.begun; y.ended = x.ended; x.p = nullptr; x.it.reset(); x.begun = x.ended = false; x.at = -1;
			REQUIRE(x.g->begin() == x.g->end(), "a moved-from generator has elements"); check(y);
		}
		else if (q < 92) { if (&x == &y || !y.g) continue; std::swap(*x.g, *y.g); std::swap(x.p, y.p); std::swap(x.it, y.it); std::swap(x.at, y.at); std::swap(x.begun, y.begun); std::swap(x.ended, y.ended); check(x); check(y); }
		else check(x);
		for (auto& z : h) if (z.p) { REQUIRE(z.p->gone == 0 || (z.at == z.p->n), "a generator that is still held was destroyed"); REQUIRE(z.p->params > 0, "the parameters of a generator that is still held were destroyed"); }
	}
	for (auto& x : h) { x.g.reset(); dead(x.p); }
}
// a generator that goes through others
generator_t<long> tree(std::vector<std::vector<int>>& kids, int k) { for (size_t i = 0; i < kids[(size_t)k].size(); ++i) { int c = kids[(size_t)k][i]; long last = 0; bool some = false; auto g = tree(kids, c); for (long x : g) { if (some) co_yield last; last = x; some = true; } if (some) co_yield last; } if (kids[(size_t)k].empty()) co_yield -1000 - k; co_return k; }
// sub-trees yield their node last
void order(std::vector<std::vector<int>>& kids, int k, std::vector<long>& out) { for (int c : kids[(size_t)k]) order(kids, c, out); if (kids[(size_t)k].empty()) out.push_back(-1000 - k); out.push_back(k); }
void run_gen()
{
	vs::kind_name = kn; g_alloc = 0;
	switch (R.below(9)) {
	case 0: run_type<long, generator_t<long>>([](Plan* p, Param& a, uint64_t s) { return gen<long>(p, a, s); }); break;
	case 1: run_type<Obj, generator_t<Obj>>([](Plan* p, Param& a, uint64_t s) { return gen<Obj>(p, a, s); }); break;
	case 2: run_type<MObj, generator_t<MObj>>([](Plan* p, Param& a, uint64_t s) { return gen<MObj>(p, a, s); }); break;
	case 3: run_type<std::string, generator_t<std::string>>([](Plan* p, Param& a, uint64_t s) { return gen<std::string>(p, a, s); }); break;
	case 4: run_type<NObj, generator_t<NObj>>([](Plan* p, Param& a, uint64_t s) { return gen<NObj>(p, a, s); }); break;
	case 5: run_type<std::unique_ptr<Obj>, generator_t<std::unique_ptr<Obj>>>([](Plan* p, Param& a, uint64_t s) { return gen<std::unique_ptr<Obj>>(p, a, s); }); break;
	case 6: run_type<std::nullptr_t, generator_t<>>([](Plan* p, Param& a, uint64_t s) { return gen_void(p, a, s); }); break;
	case 7: run_type<long, generator_t<long, CountAlloc<char>>>([](Plan* p, Param& a, uint64_t s) { return gen_alloc(p, a, s); }); REQUIRE(g_alloc == 0, "the allocator of a generator was given back %ld bytes too few", g_alloc.load()); break;
	default: {
		int n = upto(1, 14, 200); std::vector<std::vector<int>> kids((size_t)n); for (int i = 1; i < n; ++i) kids[(size_t)R.below(i)].push_back(i);
		std::vector<long> want, got; order(kids, 0, want); size_t lim = R.chance(70) ? want.size() + 5 : (size_t)R.below((int)want.size() + 1);
		{ auto g = tree(kids, 0); size_t i = 0; for (auto it = g.begin(); i < lim && it != g.end(); ++it, ++i) got.push_back(*it); }
		if (want.size() > lim) want.resize(lim); vs::log(NEW, n, (int)want.size()); vs::log(READ, (int)got.size()); REQUIRE(got == want, "a recursive generator yields another sequence"); cover("nested");
	} }
}
// generators given to schedulers
struct Task { Plan p; int sch; long born; int form; bool pre; };
struct GSys { std::vector<scheduler_t*> s; std::vector<std::unique_ptr<OwnScheduler>> own; std::deque<Task> t; long batch[3] = {}; int left = 12; std::vector<int> steps; };
void give(GSys* s);
template<class T> generator_t<T> stepper(GSys* s, int id, Param a, bool more)
{
	Task& t = s->t[(size_t)id]; Guard g(&t.p);
	for (int i = 0; i <= t.p.n; ++i) {
		t.p.allowed = i; reach(&t.p, i); s->steps.push_back(id); int ahead = t.pre ? 1 : 0;
		if (!(t.pre && i == 0)) REQUIRE(s->batch[t.sch] - t.born == i + 1 - ahead, "generator %d takes step %d in turn %ld of its scheduler", id, i, s->batch[t.sch] - t.born);
		REQUIRE(a.o.get() == t.p.id, "a parameter changed"); if (more && R.chance(30)) give(s);
		if (i < t.p.n) { if constexpr (std::is_same_v<T, std::nullptr_t>) co_yield_void; else co_yield Mk<T>::make(i); }
	}
	if constexpr (std::is_same_v<T, std::nullptr_t>) co_return_void; else co_return Mk<T>::make(1);
}
void give(GSys* s)
{
	if (--s->left < 0) return; int id = (int)s->t.size(); s->t.emplace_back(); Task& t = s->t.back(); t.p.id = id; t.p.n = upto(0, 4, 200); t.sch = R.below((int)s->s.size()); t.form = R.below(5); t.pre = t.form < 2 && t.p.n > 0 && R.chance(20); t.born = s->batch[t.sch]; vs::log(SPAWN, id, t.sch);
	scheduler_t& sc = *s->s[(size_t)t.sch]; Param a(&t.p); bool more = R.chance(40);
	switch (t.form) {
	case 0: { auto g = stepper<long>(s, id, a, more); if (t.pre) { t.p.allowed = 0; auto it = g.begin(); REQUIRE(it != g.end(), "ends early"); cover("given half way"); } sc + std::move(g); break; }
	case 1: { auto g = stepper<Obj>(s, id, a, more); if (t.pre) { t.p.allowed = 0; g.begin(); } sc + std::move(g); REQUIRE(g.begin() == g.end(), "a generator that was given away is still held"); break; }
	case 2: sc + stepper<std::nullptr_t>(s, id, a, more); break;
	case 3: { Guard* none = nullptr; (void)none; sc + [s, id, a, more] { return stepper<std::string>(s, id, a, more); }; break; }
	default: { auto f = [s, id, a, more]() -> generator_t<> { Task& u = s->t[(size_t)id]; Guard g(&u.p); for (int i = 0; i <= u.p.n; ++i) { u.p.allowed = i; reach(&u.p, i); REQUIRE(a.o.get() == id, "a capture changed"); REQUIRE(s->batch[u.sch] - u.born == i + 1, "generator %d takes step %d in turn %ld", id, i, s->batch[u.sch] - u.born); if (more && R.chance(30)) give(s); if (i < u.p.n) co_yield_void; } co_return_void; }; sc + std::move(f); break; }
	}
	REQUIRE(t.pre || t.p.pos == -1, "a generator that was given to a scheduler runs at once");
}
void run_gen_sched()
{
	vs::kind_name = kn; auto sp = std::make_unique<GSys>(); GSys& s = *sp; s.s.push_back(G()); if (R.chance(40)) { s.own.push_back(std::make_unique<OwnScheduler>()); s.s.push_back(s.own[0].get()); }
	int n = upto(1, 6, 60); s.left = 3 * n; for (int i = 0; i < n; ++i) give(&s);
	for (int g = 0;; ++g) {
		REQUIRE(g < 40000, "generators do not come to an end"); bool any = false;
		for (size_t i = 0; i < s.s.size(); ++i) if (R.chance(80)) { bool live = false; for (auto& t : s.t) live |= (size_t)t.sch == i && t.p.pos < t.p.n; ++s.batch[i]; vs::log(BATCH, (int64_t)i); bool r = s.s[i]->run_one_batch(); if (live) REQUIRE(r, "run_one_batch() returned false, a generator was to take a step"); }
		for (auto& t : s.t) { if (t.p.pos < t.p.n) any = true; else { REQUIRE(t.p.gone == 1, "a generator task has ended and its locals were destroyed %d times", (int)t.p.gone); } if (t.p.gone) REQUIRE(t.p.pos == t.p.n, "a generator task was destroyed before its end"); }
		if (R.chance(20)) give(&s);
		if (!any && s.left < 3) break; if (!any && R.chance(30)) break;
	}
	for (int quiet = 0; quiet < 2;) { ++quiet; for (size_t i = 0; i < s.s.size(); ++i) for (;;) { ++s.batch[i]; if (!s.s[i]->run_one_batch()) break; quiet = 0; } }
	for (auto* x : s.s) REQUIRE(x->empty(), "the scheduler is not empty in the end");
	for (auto& t : s.t) { REQUIRE(t.p.pos == t.p.n && t.p.gone == 1, "generator %d took %d of %d steps", t.p.id, (int)t.p.pos + 1, t.p.n + 1); REQUIRE(t.p.params == 0, "the parameters or captures of a generator task live on (%d)", (int)t.p.params); }
}
#else
// several scheduler threads; generators are handed from thread to thread between two elements
struct MT { std::deque<Plan> p; World* w = nullptr; int tid[World::MAX] = {}; Rx<int> left{ 0 }; };
generator_t<long> mt_stepper(MT* s, int id, int on, Param a) { Plan* p = &s->p[(size_t)id]; Guard g(p); for (int i = 0; i <= p->n; ++i) { p->allowed = i; reach(p, i); REQ("G01,S03", vs::self() == s->tid[on], "a generator task runs on another thread"); (void)a; if (i < p->n) co_yield i; } s->left.add(-1); co_return 0; }
void run_gen_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<MT>(); MT& s = *sp; World w(R.range(1, 3)); s.w = &w; int nx = R.range(1, 3); int per = R.range(1, 4); int n = 0;
	w.init = [&](int i) { s.tid[i] = vs::self(); };
	struct Hand { std::atomic<int> turn{ 0 }; std::optional<generator_t<Obj>> g; std::optional<generator_t<Obj>::iterator> it; Plan p; int at = -1; bool end = false; }; auto hand = std::make_shared<Hand>(); hand->p.id = 500; hand->p.n = R.range(1, 8);
	for (int x = 0; x < nx; ++x) for (int k = 0; k < per; ++k) { s.p.emplace_back(); s.p.back().id = n++; s.p.back().n = R.below(6); }
	s.left = n;
	for (int x = 0; x < nx; ++x) w.ext.push_back([&s, &w, x, nx, per, hand, seed = R.next()] {
		Rng g; g.seed(seed);
		for (int k = 0; k < per; ++k) { int id = x * per + k, on = g.below(w.n); while (!w.s(on) || w.ready.load(std::memory_order_acquire) < w.n) vs::yield(); vs::log(SPAWN, id, on); Param a(&s.p[(size_t)id]); if (g.chance(50)) *w.s(on) + mt_stepper(&s, id, on, a); else *w.s(on) + [&s, id, on, a] { return mt_stepper(&s, id, on, a); }; if (g.chance(40)) vs::yield(); }
		for (int r = 0; r < 6; ++r) { while (hand->turn.load(std::memory_order_acquire) % nx != x && hand->turn.load(std::memory_order_acquire) < 6 * nx) vs::yield();
			if (!hand->g) { Param a(&hand->p); hand->g.emplace(gen<Obj>(&hand->p, a, 5)); }
			else if (!hand->end) { Plan& p = hand->p; if (!hand->it) { p.allowed = 0; hand->it.emplace(hand->g->begin()); hand->at = 0; } else if (hand->at < p.n) { p.allowed = ++hand->at; ++*hand->it; } else { ++*hand->it; hand->end = true; REQ("G01", *hand->it == hand->g->end(), "ends late"); } if (!hand->end) REQ("G01", (**hand->it).get() == p.val(hand->at), "element %d is another one", hand->at); generator_t<Obj> m = std::move(*hand->g); *hand->g = std::move(m); }
			hand->turn.fetch_add(1, std::memory_order_acq_rel); }
	});
	w.start(); w.quiet();
	for (auto& p : s.p) { REQ("G01,S01", p.pos == p.n && p.gone == 1, "generator %d took %d of %d steps", p.id, (int)p.pos + 1, p.n + 1); REQ("G01,L01", p.params == 0, "the parameters of a generator task live on"); }
	w.finish(); w.ext.clear(); hand->it.reset(); hand->g.reset();
}
#endif
} // namespace

#if PART == 1
FAMILY("G01,L01", gen_st, 5, false) { run_gen(); }
FAMILY("G01,L01,S01", gen_sched, 4, false) { run_gen_sched(); }
#else
FAMILY("G01,L01,R01,S03", gen_mt, 3, true) { run_gen_mt(); }
#endif
