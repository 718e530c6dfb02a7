// Data structures the library is built from: queues (D01), spinlock and batch_lock_t (D02), counted_ptr (D03).
#include "mon.h"
#include <array>
#include <list>
#include <optional>
using namespace mon;

namespace {
enum { PUSH = 1, POP, FULL, EMPTY, ERASE, FRONT, LOCK, LOCKED, UNLOCK, TRY, TRIED, COPY, DROP, GONE };
const char* kn(uint32_t k) { static const char* n[] = {"?", "PUSH", "POP", "FULL", "EMPTY", "ERASE", "FRONT", "LOCK", "LOCKED", "UNLOCK", "TRY", "TRIED", "COPY", "DROP", "GONE"}; return k < 15 ? n[k] : "?"; }

#if PART == 1
// ------------------------------------------------------------------ D01 ring_queue
template<class T, bool O, class S> void ring(size_t cap, int ops)
{
	typedef ring_queue<T, O, S> Q; std::optional<Q> qo; qo.emplace(cap); std::deque<long> m; long next = 1; long base = mon::g_live.load();
	auto look = [&] { Q& q = *qo; REQUIRE((size_t)q.size() == m.size(), "size() is %zu, the queue holds %zu", (size_t)q.size(), m.size()); REQUIRE(q.empty() == m.empty(), "empty() is %d with %zu elements", q.empty(), m.size()); REQUIRE(q.full() == (m.size() >= cap), "full() is %d with %zu of %zu elements", q.full(), m.size(), cap); REQUIRE((size_t)q.capacity() == cap, "capacity() is %zu instead of %zu", (size_t)q.capacity(), cap);
		if (O && std::is_same_v<T, Obj>) REQUIRE(mon::g_live.load() == base + (long)m.size(), "%ld objects are alive in a queue of %zu", mon::g_live.load() - base, m.size()); };
	look(); int bias = 50;
	for (int k = 0; k < ops; ++k) {
		if (R.chance(3)) bias = R.below(101);
		if (R.chance(bias)) {
			long v = next++; T x = Mk<T>::make(v); bool lv = R.chance(50), r; if (O && std::is_same_v<T, Obj>) ++base; 
			if (lv) r = qo->try_push(x); else r = qo->try_push(std::move(x));
			REQUIRE(r == (m.size() < cap), "try_push() returned %d with %zu of %zu elements", r, m.size(), cap); vs::log(r ? PUSH : FULL, v);
			if (r) { m.push_back(v); } else { REQUIRE(Mk<T>::get(x) == v, "a refused element was changed"); cover("refused when full"); }
			if (O && std::is_same_v<T, Obj>) { look(); --base; continue; }
		} else {
			T x = Mk<T>::make(-5); if (O && std::is_same_v<T, Obj>) ++base; bool r = qo->try_pop(x);
			REQUIRE(r == !m.empty(), "try_pop() returned %d with %zu elements", r, m.size()); vs::log(r ? POP : EMPTY, Mk<T>::get(x));
			if (r) { REQUIRE(Mk<T>::get(x) == m.front(), "try_pop() gave %ld instead of %ld", Mk<T>::get(x), m.front()); m.pop_front(); } else { REQUIRE(Mk<T>::get(x) == -5, "the argument was changed though the queue is empty"); cover("refused when empty"); }
			if (O && std::is_same_v<T, Obj>) { look(); --base; continue; }
		}
		if (R.chance(60)) look();
		if (R.chance(2)) { Q n(std::move(*qo)); qo.reset(); qo.emplace(std::move(n)); cover("moved"); }
		if (R.chance(1)) { size_t c2 = (size_t)R.below(3); Q n(c2); n = std::move(*qo); qo.reset(); qo.emplace(1); *qo = std::move(n); cover("assigned"); }
	}
	look(); if (R.chance(50)) { T x = Mk<T>::make(-5); while (!m.empty()) { REQUIRE(qo->try_pop(x) && Mk<T>::get(x) == m.front(), "draining gave another element"); m.pop_front(); } REQUIRE(qo->empty() && !qo->try_pop(x), "not empty in the end"); }
}
void run_ring()
{
	vs::kind_name = kn; size_t cap = (size_t)R.below(9); int ops = upto(5, 120, 4000); if (R.chance(5) || big) cap = (size_t)R.range(10, 200);
	switch (R.below(10)) {
	case 0: ring<long, false, uint32_t>(cap, ops); break;
	case 1: ring<long, true, uint16_t>(cap, ops); break;
	case 2: ring<Obj, true, uint32_t>(cap, ops); break;
	case 3: ring<Obj, false, uint32_t>(cap, ops); break;
	case 4: ring<MObj, true, uint64_t>(cap, ops); break;
	case 5: ring<std::unique_ptr<Obj>, false, uint32_t>(cap, ops); break;
	case 6: ring<NObj, true, uint32_t>(cap, ops); break;
	case 7: ring<std::string, false, uint8_t>(cap, ops); break;
	case 8: ring<std::unique_ptr<Obj>, true, uint8_t>(R.chance(50) ? 254 : cap, R.chance(30) ? 900 : ops); break;
	default: ring<int, false, uint8_t>((size_t)R.range(250, 254), 1200); break;
	}
}
// ------------------------------------------------------------------ D01 intrusive_link_queue
struct PNode : intrusive_link_node<PNode> { Obj o; int id = 0; };
struct CNode : intrusive_link_node<CNode, counted_ptr<CNode>> { Obj o; int id = 0; std::atomic<int> n{ 0 }; static long live; CNode() { ++live; } ~CNode() { --live; } void lock() { ++n; } void unlock() { if (--n == 0) delete this; } };
long CNode::live = 0;
template<class Node, class Ptr> void linkq(std::vector<Ptr>& nodes)
{
	typedef intrusive_link_queue<Node, Ptr> Q; int nq = R.range(1, 3); std::vector<std::unique_ptr<Q>> q; std::vector<std::deque<int>> m((size_t)nq); for (int i = 0; i < nq; ++i) q.push_back(std::make_unique<Q>());
	std::vector<int> in(nodes.size(), -1); int ops = upto(5, 120, 2500);
	auto look = [&](int i) { REQUIRE(q[(size_t)i]->size() == m[(size_t)i].size(), "size() is %zu, the queue holds %zu", q[(size_t)i]->size(), m[(size_t)i].size()); REQUIRE(q[(size_t)i]->empty() == m[(size_t)i].empty(), "empty() is %d with %zu elements", q[(size_t)i]->empty(), m[(size_t)i].size()); };
	auto pop = [&](int i) { auto& d = m[(size_t)i]; Ptr p = q[(size_t)i]->try_pop(); if (d.empty()) { REQUIRE(p == nullptr, "try_pop() of an empty queue gave an element"); vs::log(EMPTY, i); return; } REQUIRE(p != nullptr, "try_pop() gave nothing, the queue holds %zu", d.size()); REQUIRE(p->id == d.front(), "try_pop() gave element %d instead of %d", p->id, d.front()); vs::log(POP, i, p->id); in[(size_t)p->id] = -1; d.pop_front(); look(i); };
	for (int k = 0; k < ops; ++k) {
		int i = R.below(nq); auto& d = m[(size_t)i]; int z = R.below(100); std::vector<int> freen; for (size_t j = 0; j < nodes.size(); ++j) if (in[j] < 0) freen.push_back((int)j);
		if (z < 40) { if (freen.empty()) continue; int j = R.pick(freen); vs::log(PUSH, i, j); q[(size_t)i]->push_back(nodes[(size_t)j]); d.push_back(j); in[(size_t)j] = i; look(i); }
		else if (z < 55) { if (freen.empty()) continue; int j = R.pick(freen); vs::log(FRONT, i, j); q[(size_t)i]->push_front(nodes[(size_t)j]); d.push_front(j); in[(size_t)j] = i; look(i); }
		else if (z < 75) { if (d.empty()) continue; size_t at = R.chance(30) ? 0 : R.chance(30) ? d.size() - 1 : (size_t)R.below((int)d.size()); int j = d[at]; vs::log(ERASE, i, j); if (d.size() == 1) cover("erased the only one"); else cover(at == 0 ? "erased the first" : at + 1 == d.size() ? "erased the last" : "erased in the middle"); q[(size_t)i]->erase(nodes[(size_t)j]); d.erase(d.begin() + (long)at); in[(size_t)j] = -1; look(i); }
		else if (z < 95) pop(i);
		else { // all of it
			std::deque<int> was = d; while (!d.empty()) pop(i); pop(i); if (R.chance(60)) for (int j : was) { q[(size_t)i]->push_back(nodes[(size_t)j]); d.push_back(j); in[(size_t)j] = i; } look(i); }
	}
	for (int i = 0; i < nq; ++i) { while (!m[(size_t)i].empty()) pop(i); pop(i); }
}
void run_link()
{
	vs::kind_name = kn; int n = upto(1, 8, 70); CNode::live = 0;
	if (R.chance(50)) { std::vector<std::unique_ptr<PNode>> own; std::vector<PNode*> v; for (int i = 0; i < n; ++i) { own.push_back(std::make_unique<PNode>()); own.back()->id = i; v.push_back(own.back().get()); } linkq<PNode, PNode*>(v); }
	else { std::vector<counted_ptr<CNode>> v; for (int i = 0; i < n; ++i) { v.emplace_back(new CNode); v.back()->id = i; } linkq<CNode, counted_ptr<CNode>>(v); for (auto& x : v) REQUIRE(x->n == 1, "an empty queue still refers to a node (count %d)", x->n.load());
		{ intrusive_link_queue<CNode, counted_ptr<CNode>> q; for (auto& x : v) { q.push_back(x); } for (auto& x : v) REQUIRE(x->n >= 2, "a queue does not keep its node alive"); std::vector<int> want; for (auto& x : v) want.push_back(x->id); if (R.chance(50)) { v.clear(); } for (int w : want) { auto p = q.try_pop(); REQUIRE(p != nullptr && p->id == w && p->o.get() == -1, "a node of the queue was lost"); } }
		v.clear(); REQUIRE(CNode::live == 0, "%ld nodes are never released", CNode::live); }
}
// ------------------------------------------------------------------ D02, single threaded: a lock that tells, and may seem taken
struct TLock { int id = 0; int depth = 0; int fail = 0; int boom = 0; long taken = 0, freed = 0;
	void lock() { if (boom && R.chance(boom)) { cover("lock threw"); throw std::runtime_error("lock"); } REQUIRE(depth == 0, "lock %d is locked twice", id); ++depth; ++taken; vs::log(LOCK, id); }
	bool try_lock() { if (boom && R.chance(boom)) { cover("lock threw"); throw std::runtime_error("try_lock"); } REQUIRE(depth == 0, "lock %d is tried while held by the same batch", id); if (R.chance(fail)) { cover("backed out"); return false; } ++depth; ++taken; vs::log(TRY, id); return true; }
	void unlock() { REQUIRE(depth == 1, "lock %d is released, it is not held", id); --depth; ++freed; vs::log(UNLOCK, id); } };
template<class Ty, class C> void batch(std::deque<TLock>& all, C& a, C& b, std::vector<int> ia, std::vector<int> ib)
{
	typedef batch_lock_t<Ty, C> B; struct H { std::optional<B> b; int who = -1; }; std::vector<H> h(3); bool held[2] = { false, false }; C* cont[2] = { &a, &b }; std::vector<int>* ids[2] = { &ia, &ib };
	auto look = [&] { for (auto& l : all) { bool want = false; for (int k = 0; k < 2; ++k) for (int i : *ids[k]) if (i == l.id && held[k]) want = true; REQUIRE(l.depth == (want ? 1 : 0), "lock %d is %sheld", l.id, want ? "not " : "still "); } };
	int ops = upto(3, 30, 90);
	for (int k = 0; k < ops; ++k) {
		H& x = h[(size_t)R.below(3)]; H& y = h[(size_t)R.below(3)]; int z = R.below(100);
		if (!x.b) {
			int w = R.below(2); if (held[w]) continue;
			try { if (R.chance(25)) { for (int i : *ids[w]) { TLock& l = all[(size_t)i]; ++l.depth; ++l.taken; } x.b.emplace(std::adopt_lock, *cont[w]); cover("adopted"); } else if (R.chance(30)) { detail::_LockVectorAssembleT<Ty, C> la(*cont[w]); x.b.emplace(*cont[w], la); } else x.b.emplace(*cont[w]); x.who = w; held[w] = true; cover("locked"); }
			catch (const std::runtime_error&) { x.b.reset(); look(); }
		}
		else if (z < 20) { x.b->unlock(); if (x.who >= 0) held[x.who] = false; x.who = -1; if (R.chance(40)) x.b->unlock(); cover("unlock()"); }
		else if (z < 45) { x.b.reset(); if (x.who >= 0) held[x.who] = false; x.who = -1; }
		else if (z < 65) { if (&x == &y || y.b) continue; y.b.emplace(std::move(*x.b)); y.who = x.who; x.who = -1; cover("moved"); }
		else if (z < 90) { if (!y.b) continue; if (&x != &y) { if (y.who >= 0) held[y.who] = false; y.who = x.who; x.who = -1; } auto& from = *x.b; *y.b = std::move(from); cover(&x == &y ? "assigned to itself" : "assigned"); }
		look();
	}
	for (auto& x : h) { x.b.reset(); if (x.who >= 0) held[x.who] = false; x.who = -1; look(); }
	for (auto& l : all) REQUIRE(l.depth == 0 && l.taken == l.freed, "lock %d was taken %ld times and released %ld times", l.id, l.taken, l.freed);
}
void run_batch_st()
{
	vs::kind_name = kn; int n = R.chance(15) ? R.range(9, 30) : R.range(1, 8); std::deque<TLock> all; int fail = R.chance(70) ? R.range(0, n > 8 ? 8 : n > 4 ? 40 : 70) : 0, boom = R.chance(30) ? R.range(1, 15) : 0;
	std::vector<int> ia, ib; for (int i = 0; i < n; ++i) { all.emplace_back(); all.back().id = i; all.back().fail = fail; all.back().boom = boom; int w = R.below(3); if (w == 0) ia.push_back(i); else if (w == 1) ib.push_back(i); }
	for (size_t i = 1; i < ia.size(); ++i) std::swap(ia[i], ia[(size_t)R.below((int)i + 1)]);
	switch (R.below(3)) {
	case 0: { std::vector<std::reference_wrapper<TLock>> a, b; for (int i : ia) a.push_back(all[(size_t)i]); for (int i : ib) b.push_back(all[(size_t)i]); batch<std::reference_wrapper<TLock>>(all, a, b, ia, ib); break; }
	case 1: { std::deque<std::reference_wrapper<TLock>> a, b; for (int i : ia) a.push_back(all[(size_t)i]); for (int i : ib) b.push_back(all[(size_t)i]); batch<std::reference_wrapper<TLock>>(all, a, b, ia, ib); break; }
	default: { // the container holds the locks themselves
		std::deque<TLock> a, b; (void)b; std::vector<int> ids; for (int i = 0; i < n; ++i) { a.emplace_back(); a.back().id = i; a.back().fail = fail; a.back().boom = boom; ids.push_back(i); }
		std::vector<int> none; std::deque<TLock> empty; batch<TLock>(a, a, empty, ids, none); break; }
	}
}
// ------------------------------------------------------------------ D03, single threaded
template<class T> struct Cnt;
struct Own { Obj o; long n = 0; int id; bool dead = false; static std::vector<int>* gone; counted_ptr<Own> next; explicit Own(int i) : id(i) {} void lock() { o.check(); ++n; } void unlock() { o.check(); REQUIRE(n > 0, "target %d is released more often than it was taken", id); if (--n == 0) { (*gone)[(size_t)id]++; vs::log(GONE, id); delete this; } } };
std::vector<int>* Own::gone;
template<> struct Cnt<Own> { static long count(Own* p) { return p->n; } };
struct StB : state_base_t { Obj o; int id; counted_ptr<StB> next; static std::vector<int>* gone; explicit StB(int i) : id(i) {} ~StB() { (*gone)[(size_t)id]++; vs::log(GONE, id); } };
std::vector<int>* StB::gone;
template<> struct Cnt<StB> { static long count(StB*) { return -1; } };
template<class T> void counted()
{
	typedef counted_ptr<T> P; int nt = R.range(1, 6); std::vector<int> gone((size_t)nt, 0); T::gone = &gone; std::vector<T*> raw; std::vector<long> refs((size_t)nt, 0); std::vector<std::optional<P>> h(8); std::vector<int> to(8, -1);
	auto take = [&](int t) { if (t >= 0) ++refs[(size_t)t]; }; auto drop = [&](int t) { if (t >= 0) --refs[(size_t)t]; };
	auto look = [&] { for (int t = 0; t < (int)raw.size(); ++t) { bool dead = refs[(size_t)t] == 0; REQUIRE(gone[(size_t)t] == (dead ? 1 : 0), "target %d has %ld pointers and was released %d times", t, refs[(size_t)t], gone[(size_t)t]); if (!dead) { raw[(size_t)t]->o.check(); long c = Cnt<T>::count(raw[(size_t)t]); REQUIRE(c < 0 || c == refs[(size_t)t], "target %d has %ld pointers and count %ld", t, refs[(size_t)t], c); } }
		for (int i = 0; i < 8; ++i) if (h[(size_t)i]) { T* want = to[(size_t)i] < 0 ? nullptr : raw[(size_t)to[(size_t)i]]; const P& p = *h[(size_t)i]; REQUIRE(p.get() == want && (T*)p == want, "a pointer refers to another target"); REQUIRE((p == nullptr) == !want && (nullptr == p) == !want && (p != nullptr) == !!want && (nullptr != p) == !!want, "comparison with nullptr"); if (want) REQUIRE(p->id == to[(size_t)i], "->"); int j = R.below(8); if (h[(size_t)j]) REQUIRE((p == *h[(size_t)j]) == (to[(size_t)i] == to[(size_t)j]), "comparison of pointers"); } };
	for (int t = 0; t < nt; ++t) { raw.push_back(new T(t)); int i = t % 8; h[(size_t)i].emplace(raw.back()); to[(size_t)i] = t; take(t); }
	int ops = upto(5, 100, 1500);
	for (int k = 0; k < ops; ++k) {
		int i = R.below(8), j = R.below(8), z = R.below(100); auto& x = h[(size_t)i]; auto& y = h[(size_t)j]; int& a = to[(size_t)i]; int& b = to[(size_t)j]; vs::log(COPY, z * 100 + i * 10 + j);
		if (!x) { if (!y || R.chance(10)) { x.emplace(); a = -1; } else if (z < 40) { x.emplace(*y); a = b; take(a); } else if (z < 65) { x.emplace(std::move(*y)); a = b; b = -1; REQUIRE(y->get() == nullptr, "a moved-from pointer is not null"); } else if (z < 90) { x.emplace(y->get()); a = b; take(a); } else { P t(*y); x.emplace(t); a = b; take(a); } }
		else if (z < 15) { drop(a); a = -1; x.reset(); }
		else if (z < 30) { drop(a); a = -1; x->reset(); REQUIRE(x->get() == nullptr, "a pointer that was reset is not null"); }
		else if (z < 50) { if (!y) continue; if (i == j) cover("assigned to itself"); int o = a; take(b); a = b; if (o >= 0) drop(o); *x = *y; }
		else if (z < 70) { if (!y) continue; if (i == j) { P& self = *x; self = std::move(*x); cover("moved to itself"); } else { drop(a); a = b; b = -1; *x = std::move(*y); REQUIRE(y->get() == nullptr, "a moved-from pointer is not null"); } }
		else if (z < 80) { if (!y) continue; std::swap(a, b); if (R.chance(50)) x->swap(*y); else { using std::swap; swap(*x, *y); } }
		else if (z < 86) { int o = a; a = -1; drop(o); *x = nullptr; }
		else if (z < 92) { if (!y) continue; int o = a; take(b); a = b; drop(o); *x = y->get(); }
		else { if (!y || a < 0) continue; { std::vector<P> v; for (int q = R.range(1, 5); q > 0; --q) v.push_back(*x); REQUIRE(Cnt<T>::count(raw[(size_t)a]) < 0 || Cnt<T>::count(raw[(size_t)a]) == refs[(size_t)a] + (long)v.size(), "copies in a vector are not counted"); v.erase(v.begin()); } }
		look();
	}
	for (int i = 0; i < 8; ++i) { drop(to[(size_t)i]); to[(size_t)i] = -1; h[(size_t)i].reset(); look(); }
	for (int t = 0; t < nt; ++t) REQUIRE(gone[(size_t)t] == 1, "target %d was released %d times", t, gone[(size_t)t]);
	// a chain of targets that hold each other: taking the head off must not touch it afterwards
	{ std::vector<int> g2(300, 0); T::gone = &g2; P head; int n = upto(1, 8, 300); for (int i = 0; i < n; ++i) { P nn(new T(i)); nn->next = head; if (R.chance(50)) nn->next = std::move(head); head = std::move(nn); }
	  for (int i = n - 1; i >= 0; --i) { REQUIRE(head != nullptr && head->id == i && g2[(size_t)i] == 0, "the chain is broken"); if (R.chance(40)) head = head->next; else if (R.chance(50)) head = std::move(head->next); else { P t = head->next; head.swap(t); } REQUIRE(g2[(size_t)i] == 1, "the head of a chain was released %d times", g2[(size_t)i]); } REQUIRE(head == nullptr, "the chain does not end"); cover("chain"); }
}
// a target whose destructor looks at, resets or refills the pointer that lets it go
struct Re { Obj o; long n = 0; int id; static std::vector<int>* gone; static long live; std::function<void(Re*)> at_end; explicit Re(int i) : id(i) { ++live; } ~Re() { --live; if (at_end) at_end(this); } void lock() { o.check(); ++n; } void unlock() { o.check(); REQUIRE(n > 0, "target %d is let go more often than it was taken", id); if (--n == 0) { (*gone)[(size_t)id]++; vs::log(GONE, id); delete this; } } };
std::vector<int>* Re::gone; long Re::live;
void run_reentrant()
{
	typedef counted_ptr<Re> P; int nt = R.range(2, 8); std::vector<int> gone((size_t)nt + 8, 0); Re::gone = &gone; int made = 0; Re::live = 0;
	{ std::vector<P> h(4);
	for (int k = R.range(2, 20); k > 0 && made < nt; --k) {
		int i = R.below(4), j = R.below(4); Re* t = new Re(made++); int act = R.below(4);
		t->at_end = [&h, i, act, &gone, &made, nt](Re* me) { P& p = h[(size_t)i]; REQUIRE(p.get() != me, "while target %d is being released the pointer that let it go still refers to it", me->id);
			if (act == 1) p.reset(); else if (act == 2) p = nullptr; else if (act == 3 && made < nt) { p = P(new Re(made++)); } if (act) cover("re-entrant"); };
		h[(size_t)i] = P(t);
		switch (R.below(4)) { case 0: h[(size_t)i].reset(); break; case 1: h[(size_t)i] = P(h[(size_t)j]); break; case 2: h[(size_t)i] = h[(size_t)j]; break; default: if (i != j) h[(size_t)i] = std::move(h[(size_t)j]); break; }
		long held = 0; std::set<Re*> seen; for (auto& p : h) if (p != nullptr) { p->o.check(); seen.insert(p.get()); } held = (long)seen.size(); REQUIRE(held == Re::live, "%ld targets are held and %ld are alive", held, Re::live);
		for (Re* x : seen) { long c = 0; for (auto& p : h) c += p.get() == x; REQUIRE(c == x->n, "target %d has %ld pointers and count %ld", x->id, c, x->n); }
	}
	for (auto& p : h) if (p != nullptr) p->at_end = nullptr; }
	for (int i = 0; i < made; ++i) REQUIRE(gone[(size_t)i] == 1, "target %d was released %d times", i, gone[(size_t)i]);
}
void run_counted() { vs::kind_name = kn; if (R.chance(20)) run_reentrant(); else if (R.chance(50)) counted<Own>(); else counted<StB>(); }
#else
// ------------------------------------------------------------------ D02, several threads
struct Cell { spinlock l; Rx<int> in{ 0 }; Rx<long> held0{ 0 }, free0{ 0 }; long data = 0; long sum = 0; };
struct Sys { std::deque<Cell> c; Rx<long> clk{ 1 }; Rx<int> holders{ 0 }; long tick() { return clk.add(1); } };
void entered(Sys* s, Cell& c, int i) { REQ("D02", c.in.add(1) == 0, "lock %d has two holders", i); c.held0 = s->tick(); vs::log(LOCKED, i); }
void inside(Cell& c, int i, Rng& g) { long v = c.data; if (g.chance(40)) vs::yield(); REQ("D02,R01", c.data == v, "what lock %d protects changed under its holder", i); c.data = v + 1; c.sum += v; }
void leaving(Sys* s, Cell& c, int i) { vs::log(UNLOCK, i); c.free0 = s->tick(); c.in.add(-1); }
void run_spin()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; int nl = R.range(1, 3), nt = upto(2, 4, 8); for (int i = 0; i < nl; ++i) s.c.emplace_back(); std::vector<Rx<long>> count((size_t)nl); World w(0); Rx<int> longs(R.chance(5) ? R.range(1, 2) : 0);   // holds long enough for the others to go to sleep: few, or the waiting takes up the whole budget
	for (int t = 0; t < nt; ++t) w.ext.push_back([&s, nl, &count, &longs, seed = R.next()] { Rng g; g.seed(seed);
		for (int k = g.range(1, 8); k > 0; --k) { int i = g.below(nl); Cell& c = s.c[(size_t)i];
			if (g.chance(60)) { vs::log(LOCK, i); c.l.lock(); entered(&s, c, i); inside(c, i, g); count[(size_t)i].add(1); if (longs > 0 && g.chance(30) && longs.add(-1) > 0) for (int q = 0; q < 9000; ++q) vs::yield(); leaving(&s, c, i); c.l.unlock(); }
			else { // free all the time: it must be given; held all the time: it must not
				vs::log(TRY, i); long busy0 = c.in; long f0 = c.free0, h0 = c.held0, n0 = s.clk; bool r = c.l.try_lock(); vs::log(TRIED, i, r);
				if (r) { entered(&s, c, i); inside(c, i, g); count[(size_t)i].add(1); leaving(&s, c, i); c.l.unlock(); }
				else { (void)f0; (void)h0; (void)n0; (void)busy0; } }
			if (g.chance(30)) vs::yield(); } });
	w.start(); vs::join_all(); w.finished = true;
	for (int i = 0; i < nl; ++i) { REQ("D02", s.c[(size_t)i].data == count[(size_t)i], "of %ld critical sections of lock %d %ld took effect", (long)count[(size_t)i], i, s.c[(size_t)i].data); REQ("D02", s.c[(size_t)i].l.try_lock(), "lock %d is not free in the end", i); REQ("D02", !s.c[(size_t)i].l.try_lock(), "try_lock() of a held lock succeeded"); s.c[(size_t)i].l.unlock(); REQ("D02", s.c[(size_t)i].l.try_lock(), "try_lock() of a free lock failed"); s.c[(size_t)i].l.unlock(); }
}
// try_lock against one other thread whose every step is known
void run_try()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.c.emplace_back(); Cell& c = s.c[0]; World w(0); Rx<long> l0(0), l1(0), u0(0), u1(0);
	w.ext.push_back([&, seed = R.next()] { Rng g; g.seed(seed); for (int k = 0; k < 4; ++k) { if (g.chance(50)) vs::yield(); l0.add(1); c.l.lock(); l1.add(1); for (int q = g.below(4); q > 0; --q) vs::yield(); u0.add(1); c.l.unlock(); u1.add(1); } });
	w.ext.push_back([&, seed = R.next()] { Rng g; g.seed(seed); for (int k = 0; k < 8; ++k) {
		long a1 = l1, b0 = u0, b1 = u1, a0 = l0; vs::log(TRY, a0); bool r = c.l.try_lock(); long c0 = l0, c1 = l1, d0 = u0, d1 = u1; vs::log(TRIED, c0, r); (void)c1; (void)d1; (void)a0;
		if (a1 > b0 && d0 == b0) { REQ("D02", !r, "try_lock() of a lock that was held all the time succeeded"); cover("held all the time"); }
		if (b1 == c0) { REQ("D02", r, "try_lock() of a lock that was free all the time failed"); cover("free all the time"); }
		if (r) { if (g.chance(40)) vs::yield(); c.l.unlock(); } if (g.chance(50)) vs::yield(); } });
	w.start(); vs::join_all(); w.finished = true;
}
void run_batch_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; int nl = upto(1, 5, 12), nt = upto(2, 4, 8); for (int i = 0; i < nl; ++i) s.c.emplace_back(); World w(0); std::vector<Rx<long>> count((size_t)nl);
	for (int t = 0; t < nt; ++t) w.ext.push_back([&s, nl, &count, seed = R.next()] { Rng g; g.seed(seed);
		for (int k = g.range(1, 5); k > 0; --k) {
			std::vector<int> ids; for (int i = 0; i < nl; ++i) if (g.chance(60)) ids.push_back(i); for (size_t i = 1; i < ids.size(); ++i) std::swap(ids[i], ids[(size_t)g.below((int)i + 1)]);
			auto use = [&](auto& v) {
				typedef std::remove_reference_t<decltype(v)> C; typedef batch_lock_t<std::reference_wrapper<spinlock>, C> B; for (int i : ids) v.push_back(s.c[(size_t)i].l); vs::log(LOCK, (int64_t)ids.size());
				B b(v); for (int i : ids) entered(&s, s.c[(size_t)i], i); for (int i : ids) { inside(s.c[(size_t)i], i, g); count[(size_t)i].add(1); }
				B* cur = &b; std::optional<B> b2; if (g.chance(30)) { b2.emplace(std::move(b)); cur = &*b2; cover("moved"); }
				for (int i : ids) leaving(&s, s.c[(size_t)i], i); if (g.chance(50)) cur->unlock(); };
			if (g.chance(50)) { std::vector<std::reference_wrapper<spinlock>> v; use(v); } else { std::deque<std::reference_wrapper<spinlock>> v; use(v); }
			if (ids.size() > 2) cover("three or more"); if (g.chance(30)) vs::yield();
			if (g.chance(30) && nl > 1) { int i = g.below(nl), j = g.below(nl); if (i != j) { std::scoped_lock<spinlock, spinlock> two(s.c[(size_t)i].l, s.c[(size_t)j].l); for (int q : { i, j }) { entered(&s, s.c[(size_t)q], q); inside(s.c[(size_t)q], q, g); count[(size_t)q].add(1); leaving(&s, s.c[(size_t)q], q); } } }
		} });
	w.start(); vs::join_all(); w.finished = true;
	for (int i = 0; i < nl; ++i) { REQ("D02", s.c[(size_t)i].data == count[(size_t)i], "of %ld critical sections of lock %d %ld took effect", (long)count[(size_t)i], i, s.c[(size_t)i].data); REQ("D02", s.c[(size_t)i].l.try_lock(), "lock %d is not free in the end", i); s.c[(size_t)i].l.unlock(); }
}
// ------------------------------------------------------------------ D03, several threads share a target
struct Tgt : state_base_t { Rx<int>* gone; long* wrote; int nt; Rx<long> n{ 0 }; Obj o; Tgt(Rx<int>* g, long* w, int t) : gone(g), wrote(w), nt(t) {} ~Tgt() { vs::log(GONE, 0); gone->add(1); o.check(); for (int i = 0; i < nt; ++i) REQ("D03,R01", wrote[i] == i + 1, "what a thread wrote before it let go is not visible to the destructor"); } };
void run_counted_mt()
{
	vs::kind_name = kn; int nt = upto(2, 4, 8); Rx<int> gone(0); std::vector<long> wrote((size_t)nt, 0); World w(0); counted_ptr<Tgt> first(new Tgt(&gone, wrote.data(), nt)); Rx<int> left(nt);
	std::vector<std::shared_ptr<counted_ptr<Tgt>>> give; for (int i = 0; i < nt; ++i) give.push_back(std::make_shared<counted_ptr<Tgt>>(first));
	for (int t = 0; t < nt; ++t) w.ext.push_back([&, t, mine = give[(size_t)t], seed = R.next()]() mutable { Rng g; g.seed(seed); counted_ptr<Tgt> p = std::move(*mine); mine.reset(); std::vector<counted_ptr<Tgt>> v;
		for (int k = g.range(1, 10); k > 0; --k) { int z = g.below(5); if (z == 0) v.push_back(p); else if (z == 1 && !v.empty()) v.pop_back(); else if (z == 2 && !v.empty()) { p = v.back(); } else if (z == 3) { counted_ptr<Tgt> q = p; counted_ptr<Tgt> r; r = std::move(q); p = r; } else if (z == 4) { for (auto& x : v) x = p; } vs::log(COPY, t, (int64_t)v.size()); REQ("D03", gone == 0, "the target was released although it is held"); p->o.check(); if (g.chance(30)) vs::yield(); }
		wrote[(size_t)t] = t + 1; REQ("D03", gone == 0, "the target was released although it is held"); vs::log(DROP, t); left.add(-1); if (g.chance(50)) { v.clear(); p.reset(); } else { p = nullptr; v.clear(); } REQ("D03", left > 0 || gone <= 1, "released twice"); });
	give.clear(); first.reset(); w.start(); vs::join_all(); w.finished = true; w.ext.clear();
	REQ("D03", gone == 1, "the target was released %d times", (int)gone);
}
#endif
} // namespace

#if PART == 1
FAMILY("D01,L01", ring_st, 5, false) { run_ring(); }
FAMILY("D01,L01", link_st, 5, false) { run_link(); }
FAMILY("D02,L01", batch_st, 5, false) { run_batch_st(); }
FAMILY("D03,L01", counted_st, 5, false) { run_counted(); }
#else
FAMILY("D02,R01", spin_mt, 4, true) { run_spin(); }
FAMILY("D02,R01", try_mt, 3, true) { run_try(); }
FAMILY("D02,R01", batch_mt, 5, true) { run_batch_mt(); }
FAMILY("D03,L01,R01", counted_mt, 4, true) { run_counted_mt(); }
#endif
