// asio operations awaited by coroutines (A01): asio/asio_task.h.
#define ASIO_DISABLE_EPOLL 1               // the select reactor looks at the (virtual) clock at every poll
#include <asio.hpp>
#include "mon.h"
#include "asio/asio_task.h"
#include <array>
#include <optional>
using namespace mon;

namespace {
enum { START = 1, COMPLETE, DONE, RESULT, ERROR_, AWAIT, POLL, READ, WROTE, CANCEL };
const char* kn(uint32_t k) { static const char* n[] = {"?", "START", "COMPLETE", "DONE", "RESULT", "ERROR", "AWAIT", "POLL", "READ", "WROTE", "CANCEL"}; return k < 11 ? n[k] : "?"; }
struct Boom { Obj o; explicit Boom(long v) : o(v) {} };

#if PART == 1
// ------------------------------------------------------------------ operations of our own: every kind of completion signature, completed at any time from any thread
enum Kind { K_VOID, K_EC, K_EP, K_LONG, K_OBJ, K_MOBJ, K_EC_LONG, K_EC_OBJ, K_EC_MOBJ, K_EC_STR, K_EP_OBJ, K_LONG_OBJ, K_EC_LONG_OBJ, K_EP_LONG_OBJ, NK };
inline bool can_fail(int k) { return !(k == K_VOID || k == K_LONG || k == K_OBJ || k == K_MOBJ || k == K_LONG_OBJ); }
asio::error_code code_of(long id) { switch (id % 3) { case 0: return asio::error::operation_aborted; case 1: return asio::error::eof; default: return asio::error::connection_reset; } }
struct Op {
	int id = 0, kind = 0; bool fail = false; std::function<void()> fire; Rx<int> armed{ 0 }, completed{ 0 }, done{ 0 }; Rx<int> awaiting{ 0 }; std::atomic<int> ready{ 0 }; long data = 0; std::exception_ptr keep;
};
struct Sys { std::deque<Op> op; std::vector<scheduler_t*> s; std::unique_ptr<OwnScheduler> own; World* w = nullptr; int tid[World::MAX] = {}; Rx<int> left{ 0 }; int inbatch = -1; int nops = 0; bool mt = false; };
void complete(Op* o) { vs::log(COMPLETE, o->id, o->fail); o->data = o->id + 11; o->completed = 1; auto f = std::move(o->fire); o->fire = nullptr; f(); }
#define COMPL(...) asio::async_initiate<const asio::rf_task_t<>&, __VA_ARGS__>([o](auto h) { auto shared = std::make_shared<decltype(h)>(h); if (o->id & 1) { auto h2 = *shared; auto h3 = std::move(h2); *shared = h3; }
#define COMPL_END ; o->armed = 1; o->ready.store(1, std::memory_order_release); }, asio::rf_task)
// kept to the end: the count inside of an exception_ptr is not visible to ThreadSanitizer
std::exception_ptr boom(Op* o) { if (o->fail) o->keep = std::make_exception_ptr(Boom(o->id)); return o->keep; }
asio::error_code ecode(Op* o) { return o->fail ? code_of(o->id) : asio::error_code(); }
auto op_void(Op* o) { return COMPL(void()) o->fire = [shared] { (*shared)(); } COMPL_END; }
auto op_ec(Op* o) { return COMPL(void(asio::error_code)) o->fire = [shared, o] { (*shared)(ecode(o)); } COMPL_END; }
auto op_ep(Op* o) { return COMPL(void(std::exception_ptr)) o->fire = [shared, o] { (*shared)(boom(o)); } COMPL_END; }
template<class T> auto op_t(Op* o) { return COMPL(void(T)) o->fire = [shared, o] { (*shared)(Mk<T>::make(o->id)); } COMPL_END; }
template<class T> auto op_ec_t(Op* o) { return COMPL(void(asio::error_code, T)) o->fire = [shared, o] { (*shared)(ecode(o), Mk<T>::make(o->fail ? -9 : o->id)); } COMPL_END; }
auto op_ep_obj(Op* o) { return COMPL(void(std::exception_ptr, Obj)) o->fire = [shared, o] { Obj v(o->id); (*shared)(boom(o), v); REQUIRE(v.get() == o->id, "an argument given by reference was moved from"); } COMPL_END; }
auto op_two(Op* o) { return COMPL(void(long, Obj)) o->fire = [shared, o] { (*shared)((long)o->id, Obj(o->id + 1)); } COMPL_END; }
auto op_ec_two(Op* o) { return COMPL(void(asio::error_code, long, Obj)) o->fire = [shared, o] { (*shared)(ecode(o), (long)o->id, Obj(o->id + 1)); } COMPL_END; }
auto op_ep_two(Op* o) { return COMPL(void(std::exception_ptr, long, Obj)) o->fire = [shared, o] { (*shared)(boom(o), (long)o->id, Obj(o->id + 1)); } COMPL_END; }
void got(Sys* s, Op* o, int on, long v, long want, int failed)
{
	vs::log(failed ? ERROR_ : RESULT, o->id, v);
	REQ("A01", o->completed, "operation %d: its awaiter was resumed before its completion", o->id); REQ("A01", o->done.add(1) == 0, "operation %d: its awaiter was resumed twice", o->id);
	REQ("A01", !!failed == o->fail, "operation %d %s and %s was reported", o->id, o->fail ? "failed" : "succeeded", failed ? "a failure" : "success"); REQ("A01", failed ? failed == 1 : v == want, "operation %d: %s", o->id, failed ? "another error was reported" : "another result was delivered");
	REQ("A01,R01", o->data == o->id + 11, "operation %d: what was written before its completion is not visible", o->id);
	if (s->mt) REQ("A01,S03", vs::self() == s->tid[on], "operation %d: its awaiter was resumed on another thread", o->id); else REQ("A01", s->inbatch == on, "operation %d: its awaiter was resumed outside of its scheduler", o->id);
}
#define AWAIT_(expr, conv, want) { auto f = expr; for (int k = late; k > 0; --k) co_await yield(); vs::log(AWAIT, o->id); if (o->completed) cover("complete before the await"); else cover("awaited before completion"); o->awaiting = 1; long v = -1; int bad = 0; try { conv; } catch (const asio::system_error& e) { bad = e.code() == code_of(o->id) ? 1 : 2; } catch (const Boom& e) { bad = e.o.get() == o->id ? 1 : 2; } got(s, o, on, v, want, bad); }
future_t<> one(Sys* s, Op* o, int on, int late)
{
	vs::log(START, o->id, o->kind); long id = o->id;
	switch (o->kind) {
	case K_VOID: AWAIT_(op_void(o), (void)co_await f; v = 1, 1) break;
	case K_EC: AWAIT_(op_ec(o), co_await f; v = 1, 1) break;
	case K_EP: AWAIT_(op_ep(o), co_await f; v = 1, 1) break;
	case K_LONG: AWAIT_(op_t<long>(o), v = co_await f, id) break;
	case K_OBJ: AWAIT_(op_t<Obj>(o), v = (co_await f).get(), id) break;
	case K_MOBJ: AWAIT_(op_t<MObj>(o), v = (co_await f).get(), id) break;
	case K_EC_LONG: AWAIT_(op_ec_t<long>(o), v = co_await f, id) break;
	case K_EC_OBJ: AWAIT_(op_ec_t<Obj>(o), v = (co_await f).get(), id) break;
	case K_EC_MOBJ: AWAIT_(op_ec_t<MObj>(o), v = (co_await f).get(), id) break;
	case K_EC_STR: AWAIT_(op_ec_t<std::string>(o), v = Mk<std::string>::get(co_await f), id) break;
	case K_EP_OBJ: AWAIT_(op_ep_obj(o), v = (co_await f).get(), id) break;
	case K_LONG_OBJ: AWAIT_(op_two(o), auto t = co_await f; v = std::get<0>(t) + std::get<1>(t).get(), 2 * id + 1) break;
	case K_EC_LONG_OBJ: AWAIT_(op_ec_two(o), auto t = co_await f; v = std::get<0>(t) + std::get<1>(t).get(), 2 * id + 1) break;
	default: AWAIT_(op_ep_two(o), auto t = co_await f; v = std::get<0>(t) + std::get<1>(t).get(), 2 * id + 1) break;
	}
}
future_t<> runner(Sys* s, std::vector<Op*> ops, int on, uint64_t seed) { Rng g; g.seed(seed); for (Op* o : ops) { co_await one(s, o, on, g.chance(40) ? g.range(1, 4) : 0); } s->left.add(-1); }
void setup(Sys& s, int n) { for (int i = 0; i < n; ++i) { s.op.emplace_back(); Op& o = s.op.back(); o.id = i; o.kind = R.below(NK); o.fail = can_fail(o.kind) && R.chance(40); } }
void run_st()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.s.push_back(G()); if (R.chance(40)) { s.own = std::make_unique<OwnScheduler>(); s.s.push_back(s.own.get()); }
	int nr = upto(1, 4, 16), per = upto(1, 4, 10); setup(s, nr * per); s.left = nr;
	for (int r = 0; r < nr; ++r) { std::vector<Op*> v; for (int k = 0; k < per; ++k) v.push_back(&s.op[(size_t)(r * per + k)]); int on = R.below((int)s.s.size()); *s.s[(size_t)on] + runner(&s, v, on, R.next()); }
	for (int g = 0; s.left > 0; ++g) {
		REQUIRE(g < 2000, "awaiters are not resumed"); bool all = R.chance(30);
		for (int q = 0; q < (all ? 2 : 1);) { ++q; for (size_t i = 0; i < s.s.size(); ++i) if (all || R.chance(60)) for (;;) { s.inbatch = (int)i; bool r = s.s[i]->run_one_batch(); s.inbatch = -1; if (r) q = all ? 0 : q; if (!all || !r) break; } }
		if (all) for (auto& o : s.op) if (o.completed && o.awaiting) REQUIRE(o.done == 1, "operation %d is complete and its awaiter still suspended", o.id);
		std::vector<Op*> v; for (auto& o : s.op) if (o.armed && !o.completed) v.push_back(&o); for (int k = R.below(3); k > 0 && !v.empty(); --k) { int i = R.below((int)v.size()); complete(v[(size_t)i]); v.erase(v.begin() + i); }
	}
	for (auto* x : s.s) settle(x);
	for (auto& o : s.op) REQUIRE(o.done == 1, "operation %d was not delivered", o.id); for (auto* x : s.s) REQUIRE(x->empty(), "the scheduler is not empty in the end");
}
void run_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.mt = true; World w(R.range(1, 3)); s.w = &w; int nr = upto(1, 4, 16), per = upto(1, 4, 10); setup(s, nr * per); s.left = nr;
	std::vector<int> on; std::vector<uint64_t> sd; for (int r = 0; r < nr; ++r) { on.push_back(R.below(w.n)); sd.push_back(R.next()); }
	w.init = [&](int i) { s.tid[i] = vs::self(); for (int r = 0; r < nr; ++r) if (on[(size_t)r] == i) { std::vector<Op*> v; for (int k = 0; k < per; ++k) v.push_back(&s.op[(size_t)(r * per + k)]); go runner(&s, v, i, sd[(size_t)r]); } };
	int nx = R.range(1, 3);
	for (int x = 0; x < nx; ++x) w.ext.push_back([&s, x, nx, seed = R.next()] { Rng g; g.seed(seed); std::vector<Op*> todo; for (auto& o : s.op) if (o.id % nx == x) todo.push_back(&o);
		while (!todo.empty()) { bool some = false; for (size_t k = 0; k < todo.size(); ++k) if (todo[k]->ready.load(std::memory_order_acquire)) { if (g.chance(30)) vs::yield(); complete(todo[k]); todo.erase(todo.begin() + (long)k); some = true; break; } if (!some) vs::yield(); } });
	w.start(); w.quiet();
	for (auto& o : s.op) REQ("A01,F01", o.done == 1, "operation %d is complete and its awaiter was resumed %d times", o.id, (int)o.done); REQ("A01,S01", s.left == 0, "a task did not end");
	w.finish();
}
#else
// ------------------------------------------------------------------ a real io_context: sockets, timers, post; polled by this or by another thread
struct Io {
	asio::io_context io; std::vector<scheduler_t*> s; World* w = nullptr; bool mt = false; int tid[World::MAX] = {}; Rx<int> left{ 0 }; int inbatch = -1; Rx<int> started{ 0 }, ended{ 0 };
	void place(int on) { if (mt) REQ("A01,S03", vs::self() == tid[on], "an awaiter was resumed on another thread"); else REQ("A01", inbatch == on, "an awaiter was resumed outside of its scheduler"); }
};
typedef asio::local::stream_protocol::socket Sock;
struct Pipe { Sock a, b; std::string sent; Rx<int> closed{ 0 }, canceled{ 0 }; explicit Pipe(asio::io_context& io) : a(io), b(io) { asio::local::connect_pair(a, b); } };
typedef asio::basic_waitable_timer<std::chrono::system_clock> Timer;
future_t<> writer(Io* s, std::shared_ptr<Pipe> p, int on, uint64_t seed, int n)
{
	Rng g; g.seed(seed); size_t total = 0;
	for (int k = 0; k < n; ++k) {
		std::string buf; size_t m = (size_t)g.range(1, 12); for (size_t i = 0; i < m; ++i) buf.push_back((char)('a' + (total + i) % 26)); size_t r;
		s->started.add(1); if (g.chance(50)) r = co_await asio::async_write(p->a, asio::buffer(buf), asio::rf_task); else { auto f = p->a.async_write_some(asio::buffer(buf), asio::rf_task); if (g.chance(50)) co_await yield(); r = co_await f; }
		s->ended.add(1); s->place(on); REQ("A01", r == m, "a write of %zu bytes reported %zu", m, r); total += r; vs::log(WROTE, on, (int64_t)r); if (g.chance(30)) co_await yield();
	}
	p->closed = 1; asio::error_code ec; p->a.shutdown(Sock::shutdown_send, ec); s->left.add(-1);
}
future_t<> reader(Io* s, std::shared_ptr<Pipe> p, int on, uint64_t seed)
{
	Rng g; g.seed(seed); size_t total = 0; char buf[16];
	for (;;) {
		size_t r = 0; bool eof = false, other = false; size_t want = (size_t)g.range(1, 16);
		s->started.add(1); try { auto f = p->b.async_read_some(asio::buffer(buf, want), asio::rf_task); if (g.chance(40)) co_await yield(); r = co_await f; } catch (const asio::system_error& e) { if (e.code() == asio::error::eof) eof = true; else other = true; }
		s->ended.add(1); s->place(on); REQ("A01", !other, "a read failed with another error than end of file"); if (eof) { REQ("A01", p->closed, "end of file was reported before the end"); break; }
		REQ("A01", r > 0 && r <= want, "a read of up to %zu bytes reported %zu", want, r); for (size_t i = 0; i < r; ++i) REQ("A01", buf[i] == (char)('a' + (total + i) % 26), "a read delivered other bytes"); total += r; vs::log(READ, on, (int64_t)r);
	}
	cover("read to the end"); s->left.add(-1);
}
// a read that is canceled: closed or canceled by its own scheduler's thread
future_t<> canceled(Io* s, int on, uint64_t seed)
{
	Rng g; g.seed(seed); auto p = std::make_shared<Pipe>(s->io); char buf[4]; s->started.add(1); auto f = p->b.async_read_some(asio::buffer(buf), asio::rf_task); int mode = g.below(3);
	bool aborted = false; if (g.chance(50)) co_await yield(); vs::log(CANCEL, on, mode); if (mode == 0) p->b.cancel(); else if (mode == 1) p->b.close(); else p->a.close(); for (int k = g.below(3); k > 0; --k) co_await yield();
	asio::error_code code; try { (void)co_await f; } catch (const asio::system_error& e) { aborted = true; code = e.code(); }
	s->ended.add(1); s->place(on); REQ("A01", aborted, "a canceled read reported success"); REQ("A01", code == (mode == 2 ? asio::error_code(asio::error::eof) : asio::error_code(asio::error::operation_aborted)), "a canceled read reported the error %s", code.message().c_str()); cover("canceled"); s->left.add(-1);
}
future_t<> timer(Io* s, int on, uint64_t seed)
{
	Rng g; g.seed(seed); Timer t(s->io); int64_t d = g.range(0, 5) * MS; int64_t at = vs::now() + d; t.expires_at(tp(at)); bool cancel = g.chance(30); s->started.add(1); auto f = t.async_wait(asio::rf_task); vs::add_deadline(at);
	if (g.chance(50)) co_await yield(); size_t n = 0; if (cancel) n = t.cancel(); bool aborted = false, other = false;
	try { co_await f; } catch (const asio::system_error& e) { if (e.code() == asio::error::operation_aborted) aborted = true; else other = true; }
	s->ended.add(1); s->place(on); vs::log(DONE, on, aborted); REQ("A01", !other, "a timer reported another error"); REQ("A01", aborted == (n > 0), "%zu waits were canceled and the wait reported %d", n, aborted); if (!aborted) REQ("A01", vs::now() >= at, "an asio timer ended early"); cover(aborted ? "timer canceled" : "timer"); s->left.add(-1);
}
future_t<> poster(Io* s, int on, uint64_t seed)
{
	Rng g; g.seed(seed);
	for (int k = g.range(1, 4); k > 0; --k) { s->started.add(1); auto f = asio::post(s->io, asio::rf_task); if (g.chance(50)) co_await yield(); (void)co_await f; s->ended.add(1); s->place(on); vs::log(DONE, on, 2); }
	s->left.add(-1);
}
struct Plan { int what, on, on2; uint64_t a, b; int n; };
void start(Io* s, Plan& p, std::shared_ptr<Pipe> pipe, int side)
{
	switch (p.what) {
	case 0: if (side == 0) *s->s[(size_t)p.on] + writer(s, pipe, p.on, p.a, p.n); else *s->s[(size_t)p.on2] + reader(s, pipe, p.on2, p.b); break;
	case 1: *s->s[(size_t)p.on] + canceled(s, p.on, p.a); break;
	case 2: *s->s[(size_t)p.on] + timer(s, p.on, p.a); break;
	default: *s->s[(size_t)p.on] + poster(s, p.on, p.a); break;
	}
}
void run_io_st()
{
	vs::kind_name = kn; auto sp = std::make_unique<Io>(); Io& s = *sp; s.s.push_back(G()); std::unique_ptr<OwnScheduler> own; if (R.chance(40)) { own = std::make_unique<OwnScheduler>(); s.s.push_back(own.get()); }
	int n = upto(1, 4, 12);
	for (int i = 0; i < n; ++i) { Plan p{ R.below(4), R.below((int)s.s.size()), R.below((int)s.s.size()), R.next(), R.next(), R.range(1, 5) }; std::shared_ptr<Pipe> pp; if (p.what == 0) { pp = std::make_shared<Pipe>(s.io); s.left.add(2); start(&s, p, pp, 0); start(&s, p, pp, 1); } else { s.left.add(1); start(&s, p, pp, 0); } }
	for (int g = 0; s.left > 0; ++g) {
		REQUIRE(g < 4000, "asio operations and their awaiters do not come to an end: %d of %d", (int)s.ended, (int)s.started);
		for (size_t i = 0; i < s.s.size(); ++i) for (int b = R.below(3); b > 0; --b) { s.inbatch = (int)i; s.s[i]->run_one_batch(); s.inbatch = -1; }
		if (R.chance(60)) { if (s.io.stopped()) s.io.restart(); int e0 = s.ended; size_t k = R.chance(50) ? s.io.poll() : s.io.poll_one(); vs::log(POLL, (int64_t)k); REQUIRE(s.ended == e0, "a coroutine ran inside of the io_context"); }
		if (R.chance(30)) vs::set_now(vs::now() + R.range(0, 2) * MS);
	}
	for (auto* x : s.s) settle(x);
	for (auto* x : s.s) REQUIRE(x->empty(), "the scheduler is not empty in the end"); REQUIRE(s.started == s.ended, "%d of %d operations were delivered", (int)s.ended, (int)s.started);
}
void run_io_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<Io>(); Io& s = *sp; s.mt = true; World w(R.range(1, 3)); s.w = &w; int n = R.range(1, 4); std::vector<Plan> plans; std::vector<std::shared_ptr<Pipe>> pipes;
	// a socket object is not thread-safe: both ends are used by one scheduler each, and only posts and socket pairs go across threads
	for (int i = 0; i < n; ++i) { plans.push_back(Plan{ R.below(4), R.below(w.n), R.below(w.n), R.next(), R.next(), R.range(1, 5) }); pipes.push_back(plans.back().what == 0 ? std::make_shared<Pipe>(s.io) : nullptr); s.left.add(plans.back().what == 0 ? 2 : 1); }
	std::atomic<int> up{ 0 };
	w.init = [&](int i) { s.tid[i] = vs::self(); if (i == 0) { for (int k = 0; k < w.n; ++k) s.s.push_back(w.s(k)); up.store(1, std::memory_order_release); } else while (!up.load(std::memory_order_acquire)) vs::yield();
		for (size_t k = 0; k < plans.size(); ++k) { if (plans[k].on == i) start(&s, plans[k], pipes[k], 0); if (plans[k].what == 0 && plans[k].on2 == i) start(&s, plans[k], pipes[k], 1); } };
	int np = R.range(1, 2); Rx<int> idle(0);
	for (int x = 0; x < np; ++x) w.ext.push_back([&s, &idle, seed = R.next()] { Rng g; g.seed(seed); auto guard = asio::make_work_guard(s.io); int dry = 0; while (s.left > 0) { size_t k = g.chance(50) ? s.io.poll() : s.io.poll_one(); if (k) { vs::log(POLL, (int64_t)k); dry = 0; } else if (++dry > 3000) break; vs::yield(); } });
	vs::time_jitter(30, 300000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	REQ("A01,S01", s.left == 0, "%d tasks did not end: %d of %d operations were delivered", (int)s.left, (int)s.ended, (int)s.started);
	w.finish(); w.ext.clear(); pipes.clear();
}
#endif
} // namespace

#if PART == 1
FAMILY("A01,L01,F01", asio_st, 4, false) { run_st(); }
FAMILY("A01,L01,R01", asio_mt, 5, true) { run_mt(); }
#else
FAMILY("A01,L01", asio_io_st, 4, false) { run_io_st(); }
FAMILY("A01,L01,R01", asio_io_mt, 4, true) { run_io_mt(); }
#endif
