// Stop sources, tokens and callbacks (K01); stopping tasks and schedulers (K02).
#include "mon.h"
#include <optional>
using namespace mon;

namespace {
enum { NEW = 1, DROP, REG, UNREG, RUN, REQ_, REQD, STOPALL, STOP1, WAIT, WOKE, VIA, FIRE, OBTAIN, ENDT, RUNEND };
const char* kn(uint32_t k) { static const char* n[] = {"?", "NEW", "DROP", "REG", "UNREG", "RUN", "REQUEST", "REQUESTED", "STOPALL", "STOP1", "WAIT", "WOKE", "VIA", "FIRE", "OBTAIN", "END", "RUNEND"}; return k < 17 ? n[k] : "?"; }

#if PART == 1
// ------------------------------------------------------------------ K01, single threaded, exact model
struct St { int src = 0, tok = 0; bool req = false; bool freed() const { return src == 0 && tok == 0; } };
struct Sys; void actions(Sys* s, int n);
struct Fn { Sys* s; int i; Obj o; Fn(Sys* s_, int i_) : s(s_), i(i_), o(i_) {} void operator()() noexcept; };
typedef stop_callback<Fn> Cb;
struct CbR { int st; bool listed = false, now = false, expect = false, dead = false, running = false; int runs = 0; };
struct Src { std::optional<stop_source> v; int st; int pin = 0; };
struct Tok { std::optional<stop_token> v; int st; };
struct Sys {
	std::deque<St> st; std::deque<Src> src; std::deque<Tok> tok; std::deque<CbR> rec; std::map<int, std::unique_ptr<Cb>> live; int left = 140; int depth = 0; std::vector<int> reqs; int constructing = -1;
	int pend(int k) { int n = 0; for (auto& c : rec) n += c.listed && c.st == k; return n; }
	void unsrc(int k) { if (k >= 0) --st[(size_t)k].src; }
	void untok(int k) { if (k >= 0) --st[(size_t)k].tok; }
	bool possible(int k) { return k >= 0 && (st[(size_t)k].req || st[(size_t)k].src > 0); }
	bool req(int k) { return k >= 0 && st[(size_t)k].req; }
	void check()
	{
		for (auto& x : src) if (x.v) { REQUIRE(x.v->stop_requested() == req(x.st), "stop_source::stop_requested() is %d", !req(x.st)); REQUIRE(x.v->stop_possible() == (x.st >= 0), "stop_source::stop_possible() is %d", x.st < 0); }
		for (auto& x : tok) if (x.v) { REQUIRE(x.v->stop_requested() == req(x.st), "stop_token::stop_requested() is %d", !req(x.st)); REQUIRE(x.v->stop_possible() == possible(x.st), "stop_token::stop_possible() is %d, %d sources", !possible(x.st), x.st < 0 ? -1 : st[(size_t)x.st].src); }
		for (size_t a = 0; a + 1 < src.size(); ++a) if (src[a].v && src[a + 1].v) { bool e = src[a].st == src[a + 1].st; REQUIRE((*src[a].v == *src[a + 1].v) == e && (*src[a].v != *src[a + 1].v) == !e, "comparison of stop_sources"); }
		for (size_t a = 0; a + 1 < tok.size(); ++a) if (tok[a].v && tok[a + 1].v) { bool e = tok[a].st == tok[a + 1].st; REQUIRE((*tok[a].v == *tok[a + 1].v) == e && (*tok[a].v != *tok[a + 1].v) == !e, "comparison of stop_tokens"); }
	}
};
// runs f, which gives up one reference of state k: the state is freed exactly when it was the last one
template<class F> void giving_up(Sys* s, int k, bool source, F f)
{
	if (k >= 0) { if (source) s->unsrc(k); else s->untok(k); }
	int64_t b = vs::alloc_balance(); f(); int64_t d = vs::alloc_balance() - b; int64_t want = k >= 0 && s->st[(size_t)k].freed() ? -1 : 0;
	REQUIRE(d == want, "a stop state with %d sources and %d other references: %s", k < 0 ? -1 : s->st[(size_t)k].src, k < 0 ? -1 : s->st[(size_t)k].tok, want ? "was not freed with the last of them" : "was freed early");
	if (want) cover("state freed");
}
int any_src(Sys* s, bool unpinned = false) { std::vector<int> v; for (size_t i = 0; i < s->src.size(); ++i) if (s->src[i].v && !(unpinned && s->src[i].pin)) v.push_back((int)i); return v.empty() ? -1 : R.pick(v); }
int any_tok(Sys* s) { std::vector<int> v; for (size_t i = 0; i < s->tok.size(); ++i) if (s->tok[i].v) v.push_back((int)i); return v.empty() ? -1 : R.pick(v); }
int any_cb(Sys* s) { std::vector<int> v; for (auto& c : s->live) if (c.first != s->constructing) v.push_back(c.first); return v.empty() ? -1 : R.pick(v); }
void Fn::operator()() noexcept
{
	Sys* q = s; int id = i; CbR* c = &q->rec[(size_t)id]; o.check(); vs::log(RUN, id, c->now);
	REQUIRE(!c->dead, "callback %d runs after its destruction", id);
	REQUIRE(++c->runs == 1, "callback %d runs twice", id);
	REQUIRE(c->expect || c->now, "callback %d runs, no stop of its state was requested since it was registered", id);
	REQUIRE(q->req(c->st), "stop_requested() of the state is still false when its callbacks run");
	c->listed = false; c->running = true; bool lastone = q->pend(c->st) == 0; bool now = c->now; ++q->depth; cover(now ? "ran in constructor" : "ran on request");
	{ stop_callback<Fn>* me = nullptr; auto it = q->live.find(id); if (it != q->live.end()) me = it->second.get(); (void)me; }
	if (R.chance(60)) actions(q, R.range(1, 3));
	if (!now && R.chance(25)) { auto it = q->live.find(id); if (it != q->live.end()) {
		// destroyed by its own call: the callback object and what it captured go, the state stays for the request
		std::unique_ptr<Cb> p = std::move(it->second); q->live.erase(it); c->dead = true; vs::log(UNREG, id, 1); cover("destroyed by its own call");
		// the last one may take the sources and tokens with it, also the source that is requesting
		if (lastone && R.chance(50)) { for (auto& x : q->src) if (x.v && x.st == c->st) { q->unsrc(x.st); x.st = -1; x.v.reset(); } for (auto& x : q->tok) if (x.v && x.st == c->st && R.chance(80)) { q->untok(x.st); x.st = -1; x.v.reset(); } cover("takes the sources with it"); }
		 bool last = false; q->untok(c->st);
		if (q->st[(size_t)c->st].freed()) { last = true; cover("last reference dropped by its own call"); } (void)last;
		p.reset(); --q->depth; c->running = false; return; } }
	o.check(); --q->depth; c->running = false;
}
void reg(Sys* s)
{
	int t = any_tok(s); if (t < 0) return; int k = s->tok[(size_t)t].st; int id = (int)s->rec.size(); s->rec.emplace_back(); CbR& c = s->rec.back(); c.st = k;
	bool poss = s->possible(k); c.now = s->req(k); c.listed = poss && !c.now; if (c.listed) ++s->st[(size_t)k].tok;
	vs::log(REG, id, k); int outer = s->constructing; s->constructing = id; s->live[id] = nullptr;
	int how = R.below(c.now ? 2 : 3); std::unique_ptr<Cb> p;
	if (how == 0) { stop_token keep(*s->tok[(size_t)t].v); if (k >= 0) ++s->st[(size_t)k].tok; p = std::make_unique<Cb>(keep, Fn(s, id)); if (k >= 0) --s->st[(size_t)k].tok; }
	else if (how == 1) { stop_token mv(*s->tok[(size_t)t].v); if (k >= 0) ++s->st[(size_t)k].tok; p = std::make_unique<Cb>(std::move(mv), Fn(s, id)); if (k >= 0) --s->st[(size_t)k].tok; }
	else { Fn f(s, id); p = std::make_unique<Cb>(*s->tok[(size_t)t].v, f); REQUIRE(f.o.get() == id, "the callable was moved out of an lvalue"); }
	s->constructing = outer; s->live[id] = std::move(p);
	REQUIRE(s->rec[(size_t)id].runs == (s->rec[(size_t)id].now ? 1 : 0), "callback %d ran %d times in its constructor, stop was %srequested before", id, s->rec[(size_t)id].runs, s->rec[(size_t)id].now ? "" : "not ");
	if (!poss) cover("registered where no stop is possible");
}
void unreg(Sys* s, int id)
{
	auto it = s->live.find(id); if (it == s->live.end() || !it->second) return; CbR& c = s->rec[(size_t)id];
	if (c.running) return;                              // its own call drops it elsewhere
	vs::log(UNREG, id); bool held = it->second && c.st >= 0 && !c.now && (c.listed || c.runs);
	if (c.expect && c.listed) cover("destroyed by another call before its turn"); if (c.expect && !c.listed) cover("destroyed after its call");
	c.listed = false; c.dead = true; std::unique_ptr<Cb> p = std::move(it->second); s->live.erase(it); if (held) s->untok(c.st); 
	int64_t b = vs::alloc_balance(); p.reset(); int64_t d = vs::alloc_balance() - b;
	int64_t want = -2 - (held && s->st[(size_t)c.st].freed() ? 1 : 0); REQUIRE(d == want, "destroying a callback releases %lld blocks instead of %lld", (long long)-d, (long long)-want);
}
void request(Sys* s)
{
	int a = any_src(s); if (a < 0) return; Src& x = s->src[(size_t)a]; int k = x.st; bool may = k >= 0 && !s->st[(size_t)k].req;
	vs::log(REQ_, k, may); std::vector<int> due;
	if (may) { s->st[(size_t)k].req = true; for (size_t i = 0; i < s->rec.size(); ++i) if (s->rec[i].listed && s->rec[i].st == k) { s->rec[i].expect = true; due.push_back((int)i); } }
	if (s->depth) cover("requested by a callback"); if (due.size() > 1) cover("several callbacks");
	++x.pin; bool r = x.v->request_stop(); --x.pin; vs::log(REQD, k, r);
	REQUIRE(r == may, "request_stop() returned %d", r);
	for (int i : due) REQUIRE(!s->rec[(size_t)i].listed && (s->rec[(size_t)i].runs == 1 || s->rec[(size_t)i].dead), "callback %d was registered before the request and has not run", i);
}
void one(Sys* s)
{
	if (--s->left < 0) return; int q = R.below(100);
	auto nst = [&] { s->st.emplace_back(); return (int)s->st.size() - 1; };
	if (q < 6) { int k = nst(); s->st[(size_t)k].src = 1; s->src.push_back(Src{ std::nullopt, k }); s->src.back().v.emplace(); vs::log(NEW, k); }
	else if (q < 8) { s->src.push_back(Src{ std::nullopt, -1 }); s->src.back().v.emplace(nostopstate); }
	else if (q < 10) { s->tok.push_back(Tok{ std::nullopt, -1 }); s->tok.back().v.emplace(); }
	else if (q < 16) { int a = any_src(s); if (a < 0) return; int k = s->src[(size_t)a].st; s->src.push_back(Src{ std::nullopt, k }); if (k >= 0) ++s->st[(size_t)k].src; s->src.back().v.emplace(*s->src[(size_t)a].v); vs::log(NEW, k, 1); }
	else if (q < 26) { int a = any_src(s); if (a < 0) return; int k = s->src[(size_t)a].st; s->tok.push_back(Tok{ std::nullopt, k }); if (k >= 0) ++s->st[(size_t)k].tok; s->tok.back().v.emplace(s->src[(size_t)a].v->get_token()); vs::log(NEW, k, 2); }
	else if (q < 31) { int a = any_tok(s); if (a < 0) return; int k = s->tok[(size_t)a].st; s->tok.push_back(Tok{ std::nullopt, k }); if (k >= 0) ++s->st[(size_t)k].tok; s->tok.back().v.emplace(*s->tok[(size_t)a].v); }
	else if (q < 34) { int a = any_src(s, true); if (a < 0) return; int k = s->src[(size_t)a].st; s->src.push_back(Src{ std::nullopt, k }); s->src.back().v.emplace(std::move(*s->src[(size_t)a].v)); s->src[(size_t)a].st = -1; }
	else if (q < 37) { int a = any_tok(s); if (a < 0) return; int k = s->tok[(size_t)a].st; s->tok.push_back(Tok{ std::nullopt, k }); s->tok.back().v.emplace(std::move(*s->tok[(size_t)a].v)); s->tok[(size_t)a].st = -1; }
	else if (q < 41) { int a = any_src(s, true), b = any_src(s); if (a < 0) return; int ka = s->src[(size_t)a].st, kb = s->src[(size_t)b].st; if (kb >= 0) ++s->st[(size_t)kb].src; giving_up(s, ka, true, [&] { *s->src[(size_t)a].v = *s->src[(size_t)b].v; }); s->src[(size_t)a].st = kb; if (a == b) cover("self assignment"); }
	else if (q < 45) { int a = any_tok(s), b = any_tok(s); if (a < 0) return; int ka = s->tok[(size_t)a].st, kb = s->tok[(size_t)b].st; if (kb >= 0) ++s->st[(size_t)kb].tok; giving_up(s, ka, false, [&] { *s->tok[(size_t)a].v = *s->tok[(size_t)b].v; }); s->tok[(size_t)a].st = kb; }
	else if (q < 48) { int a = any_src(s, true), b = any_src(s, true); if (a < 0 || a == b) { if (a >= 0) { auto& self = *s->src[(size_t)a].v; self = std::move(self); } return; } int ka = s->src[(size_t)a].st, kb = s->src[(size_t)b].st; giving_up(s, ka, true, [&] { *s->src[(size_t)a].v = std::move(*s->src[(size_t)b].v); }); s->src[(size_t)a].st = kb; s->src[(size_t)b].st = -1; }
	else if (q < 51) { int a = any_tok(s), b = any_tok(s); if (a < 0 || a == b) { if (a >= 0) { auto& self = *s->tok[(size_t)a].v; self = std::move(self); } return; } int ka = s->tok[(size_t)a].st, kb = s->tok[(size_t)b].st; giving_up(s, ka, false, [&] { *s->tok[(size_t)a].v = std::move(*s->tok[(size_t)b].v); }); s->tok[(size_t)a].st = kb; s->tok[(size_t)b].st = -1; }
	else if (q < 53) { int a = any_src(s, true), b = any_src(s, true); if (a < 0) return; s->src[(size_t)a].v->swap(*s->src[(size_t)b].v); std::swap(s->src[(size_t)a].st, s->src[(size_t)b].st); }
	else if (q < 55) { int a = any_tok(s), b = any_tok(s); if (a < 0) return; s->tok[(size_t)a].v->swap(*s->tok[(size_t)b].v); std::swap(s->tok[(size_t)a].st, s->tok[(size_t)b].st); }
	else if (q < 58) { int a = any_src(s, true); if (a < 0) return; Src& x = s->src[(size_t)a]; if (x.st < 0) { x.st = nst(); s->st.back().src = 1; cover("made possible"); } x.v->make_sure_possible(); }
	else if (q < 64) { int a = any_src(s, true); if (a < 0) return; int k = s->src[(size_t)a].st; vs::log(DROP, k, 1); s->src[(size_t)a].st = -1; giving_up(s, k, true, [&] { s->src[(size_t)a].v.reset(); }); }
	else if (q < 70) { int a = any_tok(s); if (a < 0) return; int k = s->tok[(size_t)a].st; vs::log(DROP, k, 2); s->tok[(size_t)a].st = -1; giving_up(s, k, false, [&] { s->tok[(size_t)a].v.reset(); }); }
	else if (q < 88) reg(s);
	else if (q < 95) { int c = any_cb(s); if (c >= 0) unreg(s, c); }
	else request(s);
}
void actions(Sys* s, int n) { if (s->depth > 6) return; while (n-- > 0) { one(s); if (R.chance(30)) s->check(); } }
void run_stop()
{
	vs::kind_name = kn; auto sp = std::make_unique<Sys>(); Sys& s = *sp; s.left = upto(10, 140, 900);
	while (s.left > 0) { actions(&s, R.range(1, 6)); s.check(); }
	// everything is dropped in random order
	for (;;) { int q = R.below(3); int a = any_src(&s), b = any_tok(&s), c = any_cb(&s); if (a < 0 && b < 0 && c < 0) break;
		if (q == 0 && a >= 0) { int k = s.src[(size_t)a].st; s.src[(size_t)a].st = -1; giving_up(&s, k, true, [&] { s.src[(size_t)a].v.reset(); }); }
		else if (q == 1 && b >= 0) { int k = s.tok[(size_t)b].st; s.tok[(size_t)b].st = -1; giving_up(&s, k, false, [&] { s.tok[(size_t)b].v.reset(); }); }
		else if (q == 2 && c >= 0) unreg(&s, c); }
	for (auto& x : s.st) REQUIRE(x.freed(), "model: a state is left");
}
// ------------------------------------------------------------------ K02, single threaded
struct Tk { int id, sch; task_t* t = nullptr; bool started = false, obtained = false, requested = false, maybe = false, ended = false, gen = false; std::optional<stop_token> tok; bool sleeping = false, must = false, may = false; int64_t until = 0; int waits = 0; };
struct Tm { int sch; int64_t at; bool called = false, canceled = false, cleared = false, may = false; };
struct Out { int tk; int runs = 0; std::unique_ptr<stop_callback<std::function<void()>>> cb; };
struct KSys {
	std::vector<scheduler_t*> s; std::unique_ptr<OwnScheduler> own; std::deque<Tk> tk; std::deque<Tm> tm; std::deque<Out> out; int left = 40; int depth = 0; int incb = 0; bool draining = false; int stopping[2] = {0, 0};
	int n() { return (int)s.size(); }
	int unfinished() { int r = 0; for (auto& t : tk) r += !t.ended; return r; }
	void check(const char* when) {
		for (auto& t : tk) if (t.tok && !t.maybe && !(t.ended && !t.requested)) REQUIRE(t.tok->stop_requested() == t.requested, "%s: task %d of scheduler %d: stop_requested() is %d", when, t.id, t.sch, !t.requested);
		if (!depth) for (auto& o : out) { Tk& t = tk[(size_t)o.tk]; if (t.ended && !t.requested) REQUIRE(o.runs <= 1, "a stop callback ran twice"); else REQUIRE(o.runs == (t.requested ? 1 : 0), "%s: a callback of task %d ran %d times, stop %s requested", when, o.tk, o.runs, t.requested ? "was" : "was not"); }
	}
};
void spawn_some(KSys* s); void add_tm(KSys* s);
void mark(Tk& t) { t.requested = true; t.maybe = false; }
void stop_all(KSys* s, int i)
{
	vs::log(STOPALL, i, s->depth); std::vector<int> due; std::vector<int> due_tm; std::vector<std::pair<int, bool>> before;
	for (auto& t : s->tk) { if (t.sch == i && !t.ended && t.obtained && !t.requested) { t.maybe = true; due.push_back(t.id); } }
	for (size_t k = 0; k < s->tm.size(); ++k) { Tm& m = s->tm[k]; if (m.sch == i && !m.called) { m.cleared = true; due_tm.push_back((int)k); } }
	for (auto& t : s->tk) if (t.sleeping && t.sch == i) { if (vs::now() < t.until) t.must = true; else t.may = true; }
	++s->depth; ++s->stopping[i]; s->s[(size_t)i]->request_stop_all_if_possible(); --s->stopping[i]; --s->depth;
	for (int k : due) { Tk& t = s->tk[(size_t)k]; REQUIRE(t.tok->stop_requested(), "task %d of scheduler %d has obtained its stop source and was not requested to stop", k, i); mark(t); cover("stopped with all"); }
	if (!s->incb) for (int k : due_tm) REQUIRE(s->tm[(size_t)k].called && s->tm[(size_t)k].canceled, "a timer of the scheduler was not canceled");
	if (s->incb) cover("stop all from a timer"); if (!due_tm.empty()) cover("timers canceled");
	s->check("after request_stop_all_if_possible");
}
void stop_one(KSys* s, int k)
{
	Tk& t = s->tk[(size_t)k]; if (t.ended || t.maybe || !t.t) return; vs::log(STOP1, k); bool was = t.requested, had = t.obtained;
	if (R.chance(50)) { if (!had) { t.obtained = true; t.tok.emplace(t.t->get_stop_token()); } t.maybe = !was; bool r = t.t->request_stop(); REQUIRE(r == !was, "task_t::request_stop() returned %d", r); mark(t); cover("task stopped"); }
	else { t.maybe = had && !was; bool r = t.t->request_stop_if_possible(); REQUIRE(r == (had && !was), "task_t::request_stop_if_possible() returned %d", r); if (had) mark(t); if (!had) cover("stop not possible"); }
}
void random_stop(KSys* s) { if (R.chance(60) || s->tk.empty()) stop_all(s, R.below(s->n())); else { ++s->depth; stop_one(s, R.below((int)s->tk.size())); --s->depth; s->check("after a stop"); } }
void obtain(KSys* s, Tk& t)
{
	vs::log(OBTAIN, t.id); bool fresh = !t.obtained; t.obtained = true; stop_token k = t.t->get_stop_token(); (void)s;
	REQUIRE(k.stop_possible(), "stop is not possible through a token of a running task");
	if (fresh) { REQUIRE(!k.stop_requested(), "a stop source obtained now has been requested already"); t.tok.emplace(k); } else REQUIRE(k == *t.tok, "the token of a task belongs to another state");
}
future_t<> body(KSys* s, int id, int steps)
{
	Tk& t = s->tk[(size_t)id]; t.started = true; Obj local(id);
	REQUIRE(librf_current_task() == t.t || !t.t, "librf_current_task()"); t.t = librf_current_task();
	for (int k = 0; k < steps; ++k) {
		int q = R.below(100); local.check();
		if (q < 20) obtain(s, t);
		else if (q < 45) {
			// until it is stopped
			obtain(s, t); awaitable_t<> aw; int ran = 0; bool thr = R.chance(50), more = R.chance(20);
			vs::log(WAIT, id, t.requested); bool was = t.requested; ++t.waits;
			auto f = [&ran, aw, s, thr, more] { ++ran; if (more) { if (R.chance(50)) spawn_some(s); else add_tm(s); } if (thr) aw.throw_exception(canceled_exception(error_code::stop_requested)); else aw.set_value(); };
			bool threw = false;
			{
				stop_callback<decltype(f)> cb(t.t->get_stop_token(), f); REQUIRE(ran == (was ? 1 : 0), "a callback of a task ran %d times when it was registered", ran);
				try { co_await aw.get_future(); } catch (const canceled_exception& e) { threw = true; REQUIRE(e._error == error_code::stop_requested, "the code of the exception"); }
			}
			REQUIRE(threw == thr, "the outcome of a wait for a stop"); REQUIRE(ran == 1, "a stop callback ran %d times", ran); REQUIRE(t.requested && t.tok->stop_requested(), "a task was stopped, no stop was requested"); vs::log(WOKE, id);
		}
		else if (q < 60) {
			int64_t d = R.range(1, 6) * MS; t.until = vs::now() + d; t.must = t.may = false; t.sleeping = true; bool threw = false; scheduler_t* own = s->s[(size_t)t.sch];
			try { co_await sleep_for(dns(d), *own); } catch (const canceled_exception& e) { threw = true; REQUIRE(e._error == error_code::timer_canceled, "the code of the exception"); }
			t.sleeping = false; if (t.must) REQUIRE(threw, "a sleep was not canceled by request_stop_all_if_possible"); if (!t.must && !t.may) REQUIRE(!threw, "a sleep was canceled, nobody stopped its scheduler");
			if (threw) cover("sleep canceled");
		}
		else if (q < 75) co_await yield();
		else if (q < 82 && s->n() > 1) { t.sch ^= 1; vs::log(VIA, id, t.sch); co_await via(s->s[(size_t)t.sch]); cover("moved"); }
		else if (q < 90 && s->left > 0) spawn_some(s);
		else if (q < 95) random_stop(s);
		else add_tm(s);
	}
	vs::log(ENDT, id); t.ended = true;
}
generator_t<> gen_body(KSys* s, int id, int steps) { Tk& t = s->tk[(size_t)id]; t.started = true; Obj o(id); for (int i = 0; i < steps; ++i) { co_yield_void; o.check(); } t.ended = true; co_return_void; }
void spawn_some(KSys* s)
{
	if (--s->left < 0) return; int id = (int)s->tk.size(); s->tk.emplace_back(); Tk& t = s->tk.back(); t.id = id; t.sch = R.below(s->n()); int n = R.range(0, 5); vs::log(NEW, id, t.sch);
	if (R.chance(15)) { t.gen = true; t.t = *s->s[(size_t)t.sch] + gen_body(s, id, n); } else if (R.chance(50)) t.t = *s->s[(size_t)t.sch] + body(s, id, n); else { Obj cap(id); t.t = *s->s[(size_t)t.sch] + [s, id, n, cap]() -> future_t<> { co_await body(s, id, n); cap.check(); }; }
	// somebody outside looks after the task
	if (R.chance(30)) { obtain(s, t); if (R.chance(50)) { s->out.emplace_back(); Out* o = &s->out.back(); o->tk = id; o->cb = std::make_unique<stop_callback<std::function<void()>>>(t.t->get_stop_token(), [o, s] { ++o->runs; if (R.chance(20)) spawn_some(s); if (R.chance(20)) random_stop(s); }); } }
}
void add_tm(KSys* s)
{
	int i = (int)s->tm.size(); s->tm.emplace_back(); Tm& m = s->tm.back(); m.sch = R.below(s->n()); m.at = vs::now() + R.range(0, 5) * MS; m.may = s->stopping[m.sch] > 0;
	s->s[(size_t)m.sch]->timer()->add(tp(m.at), [s, i](bool c) {
		Tm& x = s->tm[(size_t)i]; vs::log(FIRE, i, c); REQUIRE(!x.called, "a timer callback is called twice"); x.called = true; x.canceled = c;
		if (c) REQUIRE(x.cleared || x.may, "a timer was canceled, nobody stopped its scheduler"); else { REQUIRE(!x.cleared, "a timer fired although its scheduler had been stopped"); REQUIRE(vs::now() >= x.at, "a timer fired early"); }
		++s->incb; if (!s->draining) { if (R.chance(25)) random_stop(s); if (R.chance(10)) spawn_some(s); } --s->incb; });
}
void run_stopall()
{
	vs::kind_name = kn; auto sp = std::make_unique<KSys>(); KSys& s = *sp; s.s.push_back(G()); if (R.chance(60)) { s.own = std::make_unique<OwnScheduler>(); s.s.push_back(s.own.get()); }
	int n = upto(3, 30, 120);  if (big) s.left = 250;
	for (int i = 0; i < n; ++i) {
		for (int k = R.range(0, 3); k > 0; --k) { int q = R.below(100); if (q < 45) spawn_some(&s); else if (q < 65) random_stop(&s); else if (q < 85) add_tm(&s); else s.check("in between"); }
		for (auto* x : s.s) for (int b = R.below(4); b > 0; --b) x->run_one_batch();
		if (R.chance(30)) vs::set_now(vs::now() + R.range(0, 3) * MS);
		s.check("after running");
	}
	// it still works: everything comes to its end once each task has been stopped
	s.draining = true; s.left = 0;
	for (int g = 0; s.unfinished() || !s.s[0]->empty() || (s.n() > 1 && !s.s[1]->empty()); ++g) { REQUIRE(g < 5000, "%d tasks do not come to an end after they were stopped", s.unfinished()); if (R.chance(60)) vs::set_now(vs::now() + 2 * MS); for (auto* x : s.s) x->run_one_batch(); if (R.chance(40)) stop_all(&s, R.below(s.n())); }
	for (auto& t : s.tk) REQUIRE(t.started && t.ended, "task %d did not run", t.id);
	for (auto& m : s.tm) REQUIRE(m.called, "a timer callback was never called");
	s.check("at the end");
	for (int i = 0; i < s.n(); ++i) { bool a = false, b = false; *s.s[(size_t)i] + [&]() -> future_t<> { co_await sleep_for(dns(MS), *s.s[(size_t)i]); a = true; }; s.s[(size_t)i]->timer()->add(dns(MS), [&](bool c) { b = !c; }); settle(s.s[(size_t)i]); vs::set_now(vs::now() + MS); settle(s.s[(size_t)i]); settle(s.s[(size_t)i]); REQUIRE(a && b && s.s[(size_t)i]->empty(), "the scheduler does not work any more after request_stop_all_if_possible"); }
}
#else
// ------------------------------------------------------------------ K01, several threads
struct Ms { Rx<long> req0{ -1 }, req1{ -1 }; Rx<int> who{ -1 }; Rx<int> trues{ 0 }; long data = 0; };
struct Mc { int st; Rx<long> reg0{ -1 }, reg1{ -1 }, d0{ -1 }, d1{ -1 }, r0{ -1 }, r1{ -1 }; Rx<int> runs{ 0 }, rthr{ -1 }, cthr{ -1 }, own{ 0 }; long in = 0, out = 0; };
struct MSys;
struct MFn { MSys* s; int i; int self; uint64_t seed; MFn(MSys* q, int k, uint64_t sd) : s(q), i(k), self(0), seed(sd) {} void operator()() noexcept; };
typedef stop_callback<MFn> MCb;
struct MSys { std::deque<Ms> st; std::deque<Mc> cb; struct Box { std::atomic<MCb*> p{ nullptr }; operator MCb*() const { return p.load(std::memory_order_relaxed); } }; std::deque<Box> box; Rx<int> ncb{ 0 }; Rx<long> clk{ 0 }; std::atomic<MCb*> slot[4]; long tick() { return clk.add(1); } MSys() { for (auto& x : slot) x.store(nullptr, std::memory_order_relaxed); } };
void drop(MSys* s, MCb* p, int i)
{
	Mc& c = s->cb[(size_t)i]; bool own = c.own && c.r1 < 0 && c.rthr == vs::self(); vs::log(UNREG, i); c.d0 = s->tick(); delete p; c.d1 = s->tick(); vs::log(UNREG, i, 1);
	if (!own) { REQ("K01", c.r0 < 0 || c.r1 >= 0, "the destructor of callback %d returned while it is running", i); if (c.runs) REQ("K01,R01", c.out == i + 7, "the effects of callback %d are not visible after its destructor", i); }
	else cover("destroyed by its own call");
}
void MFn::operator()() noexcept
{
	MSys* q = s; int id = i; Mc& c = q->cb[(size_t)id]; Ms& m = q->st[(size_t)c.st]; Rng g; g.seed(seed); bool own = self; vs::log(RUN, id);
	REQ("K01", c.runs.add(1) == 0, "callback %d runs twice", id);
	c.rthr = vs::self(); c.r0 = q->tick();
	REQ("K01", c.d1 < 0, "callback %d runs after its destructor has returned", id);
	REQ("K01,R01", c.in == id + 3, "what was written before callback %d was registered is not visible", id);
	REQ("K01,R01", m.data == c.st + 5, "what was written before the request is not visible in the callback");
	if (g.chance(60)) vs::yield();
	if (g.chance(30)) vs::yield();
	c.out = id + 7;
	if (own && g.chance(70)) { MCb* p = q->box[(size_t)id].p.load(std::memory_order_acquire); if (p) { c.own = 1; drop(q, p, id); c.r1 = q->tick(); vs::log(RUNEND, id); return; } }
	// another one
	if (q->st.size() == 1 && g.chance(30)) { int k = g.below(4); MCb* p = q->slot[k].exchange(nullptr, std::memory_order_acq_rel); if (p) { int j = -1; for (size_t n = 0; n < q->box.size(); ++n) if (q->box[n] == p && q->cb[n].d0 < 0) j = (int)n; if (j == id) q->slot[k].store(p, std::memory_order_release); else if (j >= 0) { cover("destroyed by another callback"); drop(q, p, j); } } }
	c.r1 = q->tick(); vs::log(RUNEND, id);
}
void run_stop_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<MSys>(); MSys& s = *sp; int ns = R.range(1, 2), nt = R.range(2, 4), per = upto(1, 4, 14);
	std::vector<stop_source> src; for (int i = 0; i < ns; ++i) { s.st.emplace_back(); src.emplace_back(); }
	int ncb = nt * per; for (int i = 0; i < ncb; ++i) { s.cb.emplace_back(); s.box.emplace_back(); s.cb.back().st = R.below(ns); }
	World w(0); std::vector<int> reqt; for (int k = 0; k < ns; ++k) reqt.push_back(R.chance(85) ? R.below(nt) : -1); int req2 = R.chance(50) ? R.below(nt) : -1;
	// whether a state is given its data by the requester: a single designated writer, others request through it too
	for (int t = 0; t < nt; ++t) w.ext.push_back([&s, t, per, ns, reqt, req2, copies = src, seed = R.next()]() mutable {
		Rng g; g.seed(seed); std::vector<std::pair<int, MCb*>> mine; std::vector<int> todo; for (int k = 0; k < per; ++k) todo.push_back(0);
		std::vector<int> reqs; for (int k = 0; k < ns; ++k) if (reqt[(size_t)k] == t) reqs.push_back(k);
		int n = 0; int again = req2 == t ? 1 : 0;
		while (n < per || !reqs.empty()) {
			int q = g.below(100);
			if (q < 45 && n < per) {
				int id = t * per + n++; Mc& c = s.cb[(size_t)id]; c.in = id + 3; c.cthr = vs::self(); MFn f(&s, id, g.next()); f.self = g.chance(25); bool wasreq = s.st[(size_t)c.st].req1 >= 0;
				vs::log(REG, id, c.st); c.reg0 = s.tick(); MCb* p; stop_token tk = copies[(size_t)c.st].get_token();
				void* mem = ::operator new(sizeof(MCb));
				p = g.chance(50) ? new (mem) MCb(tk, f) : new (mem) MCb(std::move(tk), f);
				s.box[(size_t)id].p.store(p, std::memory_order_release); c.reg1 = s.tick(); vs::log(REG, id, -1);
				if (wasreq) REQ("K01", c.runs == 1 && c.rthr == vs::self(), "callback %d was registered after the request and has not run in its constructor", id);
				if (f.self) continue;                        // drops itself, or at the end
				if (g.chance(30)) { MCb* old = s.slot[g.below(4)].exchange(p, std::memory_order_acq_rel); if (old) { for (size_t j = 0; j < s.box.size(); ++j) if (s.box[j] == old && s.cb[j].d0 < 0) mine.emplace_back((int)j, old); } }
				else mine.emplace_back(id, p);
			} else if (q < 65 && !mine.empty()) { int k = g.below((int)mine.size()); auto x = mine[(size_t)k]; mine.erase(mine.begin() + k); drop(&s, x.second, x.first); }
			else if (q < 85 && !reqs.empty()) {
				int k = reqs.back(); reqs.pop_back(); Ms& m = s.st[(size_t)k]; m.data = k + 5; vs::log(REQ_, k); m.req0 = s.tick(); m.who = vs::self(); bool r = copies[(size_t)k].request_stop(); m.req1 = s.tick(); vs::log(REQD, k, r); if (r) m.trues.add(1);
				REQ("K01", copies[(size_t)k].stop_requested() && copies[(size_t)k].get_token().stop_requested(), "stop_requested() is false after request_stop()");
			}
			else if (again) { --again; int k = g.below(ns); Ms& m = s.st[(size_t)k]; if (copies[(size_t)k].stop_requested()) { REQ("K01,R01", m.data == k + 5, "what was written before the request is not visible after stop_requested()"); bool r = copies[(size_t)k].request_stop(); REQ("K01", !r, "request_stop() returned true twice"); } }
			else { int k = g.below(ns); Ms& m = s.st[(size_t)k]; bool after = m.req1 >= 0; bool r = copies[(size_t)k].stop_requested(); if (after) REQ("K01", r, "stop_requested() is false after request_stop() has returned"); if (r) { REQ("K01", m.req0 >= 0, "stop_requested() is true, nobody requested it"); REQ("K01,R01", m.data == k + 5, "what was written before the request is not visible after stop_requested()"); } if (g.chance(30)) { stop_source c2 = copies[(size_t)k]; stop_token t2 = c2.get_token(); stop_token t3 = t2; copies[(size_t)k] = std::move(c2); } }
			if (g.chance(30)) vs::yield();
		}
		for (auto& x : mine) { drop(&s, x.second, x.first); if (g.chance(30)) vs::yield(); }
		copies.clear();
	});
	src.clear(); w.start(); vs::join_all(); w.finished = true; w.ext.clear();
	for (auto& x : s.slot) { MCb* p = x.exchange(nullptr); if (p) for (size_t j = 0; j < s.box.size(); ++j) if (s.box[j] == p && s.cb[j].d0 < 0) { drop(&s, p, (int)j); break; } }
	for (int j = 0; j < ncb; ++j) if (s.box[(size_t)j] && s.cb[(size_t)j].d0 < 0) drop(&s, s.box[(size_t)j], j);
	for (int i = 0; i < ncb; ++i) {
		Mc& c = s.cb[(size_t)i]; Ms& m = s.st[(size_t)c.st];
		if (c.runs) { bool inctor = c.r0 > c.reg0 && c.r0 < c.reg1 && c.rthr == c.cthr; bool onreq = c.rthr == m.who && c.r0 > m.req0 && c.r0 < m.req1; REQ("K01", inctor || onreq, "callback %d ran neither in its constructor nor in the request on the requesting thread", i); cover(onreq ? "ran on request" : "ran in constructor"); }
		if (m.req0 < 0) REQ("K01", !c.runs, "callback %d ran, nobody requested a stop", i);
		else { if (c.d1 < m.req0) REQ("K01", !c.runs, "callback %d ran, it was destroyed before the request", i);
			if (c.d0 > m.req1) { REQ("K01", c.runs == 1, "callback %d was neither called by the request nor by its constructor", i); }
			if (c.d0 > m.req0 && c.d0 < m.req1) cover("destroyed while the request runs"); if (c.reg0 < m.req1 && c.reg1 > m.req0) cover("registered while the request runs"); }
	}
	for (auto& m : s.st) if (m.req0 >= 0) REQ("K01", m.trues == 1, "request_stop() returned true %d times", (int)m.trues);
}
// several threads request at once: one wins
void run_race()
{
	vs::kind_name = kn; int nt = upto(2, 5, 8); stop_source src; Rx<int> trues(0), runs(0), in(0); World w(0); Rx<int> winner(-1), ran(-1);
	auto f = [&] { runs.add(1); REQ("K01", in.add(1) == 0, "two callbacks of one request at once"); ran = vs::self(); vs::yield(); in.add(-1); };
	auto cb = std::make_unique<stop_callback<decltype(f)>>(src.get_token(), f); auto cb2 = std::make_unique<stop_callback<decltype(f)>>(src.get_token(), f); 
	for (int t = 0; t < nt; ++t) w.ext.push_back([&, c = src, seed = R.next()]() mutable { Rng g; g.seed(seed); if (g.chance(50)) vs::yield(); vs::log(REQ_, 0); bool r = c.request_stop(); vs::log(REQD, 0, r); if (r) { trues.add(1); winner = vs::self(); REQ("K01", runs == 2, "request_stop() returned true and %d of 2 callbacks have run", (int)runs); } REQ("K01", c.stop_requested(), "stop_requested() is false after request_stop()"); });
	w.start(); vs::join_all(); w.finished = true; w.ext.clear();
	REQ("K01", trues == 1, "request_stop() returned true %d times", (int)trues); REQ("K01", runs == 2 && ran == winner, "callbacks ran %d times", (int)runs);
}
// ------------------------------------------------------------------ K02, schedulers on threads
struct At { int id; Rx<int> place{ -1 }, obtained{ 0 }, ended{ 0 }, requested{ 0 }, started{ 0 }; std::optional<stop_source> src; std::optional<stop_token> tok; std::atomic<int> given{ 0 }; long data = 0; Rx<int> by_ext{ 0 }; };
struct AMSys { std::deque<At> t; World* w = nullptr; int tid[World::MAX] = {}; Rx<int> left{ 0 }; Rx<int> stops[World::MAX]; bool calm[World::MAX] = {}; };
future_t<> waiter(AMSys* s, int id, int at, int move, uint64_t seed)
{
	Rng g; g.seed(seed); At& t = s->t[(size_t)id]; Obj local(id); t.started = 1; vs::log(NEW, id, at); t.place = at;
	bool quiet = s->calm[at]; for (int k = g.below(3); k > 0; --k) co_await yield();
	if (g.chance(40)) { int n0 = s->stops[at]; bool threw = false; int64_t until = vs::now() + g.range(1, 5) * 100000; vs::add_deadline(until); scheduler_t* here = s->w->s(at); try { co_await sleep_until(tp(until), *here); } catch (const canceled_exception& e) { threw = true; } if (threw) REQ("K02", s->stops[at] > n0, "a sleep was canceled, nobody stopped its scheduler"); else REQ("K02", vs::now() >= until, "a sleep ended early"); }
	task_t* me = librf_current_task(); stop_token tok = me->get_stop_token(); t.tok.emplace(tok); t.src.emplace(me->get_stop_source()); t.obtained = 1; vs::log(OBTAIN, id); t.given.store(1, std::memory_order_release);
	if (move >= 0) { if (g.chance(50)) co_await yield(); t.place = -1; vs::log(VIA, id, move); co_await via(s->w->s(move)); at = move; t.place = at; cover("moved"); }
	bool late = tok.stop_requested(); REQ("K02,S03", vs::self() == s->tid[at], "a task runs on another thread");
	if (!s->calm[at] || t.by_ext) {
		awaitable_t<> aw; Rx<int> ran(0); long got = 0; vs::log(WAIT, id); { auto f = [&, aw] { ran.add(1); got = t.by_ext ? 1 : 2; vs::yield(); aw.set_value(); }; stop_callback<decltype(f)> cb(tok, f); co_await aw.get_future(); REQ("K02", ran == 1, "a stop callback ran %d times", (int)ran); }
		vs::log(WOKE, id); REQ("K02,R01", got != 0, "the effects of a stop callback are not visible"); REQ("K02", tok.stop_requested(), "a task was stopped, no stop was requested");
		REQ("K02,S03", vs::self() == s->tid[at], "a stopped task was resumed on another thread");
		if (t.by_ext && quiet && s->calm[at]) REQ("K02,R01", t.data == id + 9, "what the stopping thread wrote is not visible");
	} else { for (int k = g.range(1, 6); k > 0; --k) co_await yield(); REQ("K02", late || !tok.stop_requested(), "task %d was stopped, only another scheduler was", id); cover("left alone"); }
	local.check(); t.ended = 1; vs::log(ENDT, id); s->left.add(-1);
}
future_t<> killer(AMSys* s, int i, uint64_t seed)
{
	Rng g; g.seed(seed); scheduler_t* here = s->w->s(i);
	while (s->left > 0) {
		for (int k = g.below(6); k >= 0; --k) co_await yield();
		if (g.chance(30)) { s->stops[i].add(1); vs::log(STOPALL, i); 
			std::vector<int> due; for (auto& t : s->t) if (t.place == i && t.obtained && !t.ended) due.push_back(t.id);
			here->request_stop_all_if_possible();
			for (int k : due) { REQ("K02", s->t[(size_t)k].tok->stop_requested(), "task %d of scheduler %d has obtained its stop source and was not requested to stop", k, i); cover("stopped with all"); } }
	}
}
void run_stopall_mt()
{
	vs::kind_name = kn; auto sp = std::make_unique<AMSys>(); AMSys& s = *sp; World w(R.range(1, 3)); s.w = &w; int n = upto(2, 8, 30); std::vector<int> at, mv; std::vector<uint64_t> seeds;
	for (int i = 0; i < w.n; ++i) s.calm[i] = w.n > 1 && R.chance(35); if (w.n == 1) s.calm[0] = R.chance(30);
	for (int i = 0; i < n; ++i) { s.t.emplace_back(); s.t.back().id = i; at.push_back(R.below(w.n)); mv.push_back(w.n > 1 && R.chance(35) ? R.below(w.n) : -1); if (mv.back() == at.back()) mv.back() = -1; seeds.push_back(R.next()); s.t.back().by_ext = R.chance(30); }
	s.left = n;
	w.init = [&](int i) { s.tid[i] = vs::self(); for (int k = 0; k < n; ++k) if (at[(size_t)k] == i) go waiter(&s, k, i, mv[(size_t)k], seeds[(size_t)k]); if (!s.calm[i]) go killer(&s, i, seeds[0] + (uint64_t)i); };
	int nx = R.range(1, 2);
	for (int x = 0; x < nx; ++x) w.ext.push_back([&s, x, nx, n, seed = R.next()] {
		Rng g; g.seed(seed);
		for (int k = 0; k < n; ++k) { At& t = s.t[(size_t)k]; if (!t.by_ext || k % nx != x) continue; while (!t.given.load(std::memory_order_acquire)) vs::yield(); stop_source c = *t.src; if (g.chance(50)) vs::yield(); t.data = k + 9; vs::log(STOP1, k); bool r = c.request_stop(); (void)r; cover(r ? "stopped from outside" : "stopped from outside, late"); REQ("K02", c.stop_requested(), "stop_requested() is false after request_stop()"); } });
	if (R.chance(50)) vs::time_jitter((uint32_t)R.range(20, 60), R.range(1, 20) * 100000); else vs::time_jitter(20, 200000);
	w.start(); w.quiet(); vs::time_jitter(0, 0);
	for (auto& t : s.t) REQ("K02,S01", t.started && t.ended, "task %d did not come to its end", t.id);
	w.finish(); for (auto& t : s.t) { t.src.reset(); t.tok.reset(); }
}
// ------------------------------------------------------------------ K02, the stop source of a task taken by several threads
struct Sx { std::atomic<task_t*> task{ nullptr }; Rx<int> asked{ 0 }, trues{ 0 }, ended{ 0 }, cbs{ 0 }; Rx<long> runs{ 0 }; Rx<int>* all = nullptr; std::deque<std::vector<stop_source>> got; awaitable_t<> done; future_t<> fut = done.get_future(); };
future_t<> holder(Sx* x, scheduler_t* here, uint64_t seed, int slot, bool stopper)
{
	Rng g; g.seed(seed); Obj local(slot);
	for (int k = g.below(6); k > 0; --k) {
		if (g.chance(40)) { task_t* me = librf_current_task(); x->got[(size_t)slot].push_back(me->get_stop_source()); }
		if (stopper && g.chance(30)) { x->all->add(1); bool had = !x->got[(size_t)slot].empty(); here->request_stop_all_if_possible(); if (had) REQ("K02", x->got[(size_t)slot][0].stop_requested(), "the stop of all tasks did not reach a task whose source was obtained"); }
		co_await yield();
	}
	co_await x->fut; local.check(); x->ended = 1;
}
void run_src_mt()
{
	vs::kind_name = kn; int nt = upto(1, 3, 7), nk = R.range(1, 3); World w(R.range(1, 2)); std::deque<Sx> xs; std::atomic<int> left(nt * nk); Rx<int> all[2]; bool stopper = R.chance(40); std::vector<int> at; std::vector<uint64_t> sd;
	for (int k = 0; k < nk; ++k) { xs.emplace_back(); for (int t = 0; t <= nt; ++t) xs.back().got.emplace_back(); at.push_back(R.below(w.n)); xs.back().all = &all[at.back()]; sd.push_back(R.next()); }
	w.init = [&](int i) { for (int k = 0; k < nk; ++k) if (at[(size_t)k] == i) xs[(size_t)k].task.store(*w.s(i) + holder(&xs[(size_t)k], w.s(i), sd[(size_t)k], nt, stopper), std::memory_order_release); };
	for (int t = 0; t < nt; ++t) w.ext.push_back([&, t, seed = R.next()] {
		Rng g; g.seed(seed);
		for (auto& x : xs) {
			task_t* task; while (!(task = x.task.load(std::memory_order_acquire))) vs::yield();
			auto& mine = x.got[(size_t)t]; std::vector<stop_token> toks;
			for (int k = g.range(1, 4); k > 0; --k) {
				int q = g.below(100);
				if (q < 30) { vs::log(OBTAIN, t); mine.push_back(task->get_stop_source()); REQ("K02", mine.back().stop_possible(), "the stop source of a task is empty"); }
				else if (q < 55) { vs::log(OBTAIN, t, 1); toks.push_back(task->get_stop_token()); REQ("K02", toks.back().stop_possible(), "the stop token of a task cannot be stopped"); }
				else if (q < 70) { stop_token tok = task->get_stop_token(); auto f = [&] { x.runs.add(1); }; x.cbs.add(1); bool was = x.runs > 0; { stop_callback<decltype(f)> cb(tok, f); if (g.chance(50)) vs::yield(); } (void)was; }
				else if (q < 85) { vs::log(STOP1, t); x.asked.add(1); bool r = task->request_stop(); if (r) x.trues.add(1); REQ("K02", task->get_stop_token().stop_requested(), "stop_requested() is false after task_t::request_stop()"); }
				else { bool had = !mine.empty() || !toks.empty(); vs::log(STOP1, t, 1); if (had) x.asked.add(1); bool r = task->request_stop_if_possible(); if (r) { x.trues.add(1); if (!had) x.asked.add(1); } if (had) REQ("K02", task->get_stop_token().stop_requested(), "request_stop_if_possible() did not reach a task whose source was obtained"); }
				if (g.chance(30)) vs::yield();
			}
			for (auto& k : toks) for (auto& m : mine) REQ("K02", k == m.get_token(), "a task has two stop sources");
			if (x.asked > 0 && !mine.empty()) cover("obtained and stopped");
			left.fetch_sub(1, std::memory_order_release);
		}
	});
	w.start(); while (left.load(std::memory_order_acquire) > 0) vs::yield();
	for (auto& x : xs) { vs::log(WOKE, 0); x.done.set_value(); }
	w.quiet();
	for (auto& x : xs) REQ("K02,S01", x.ended, "a task did not come to its end");
	w.finish();
	for (auto& x : xs) {
		stop_source* first = nullptr; for (auto& v : x.got) for (auto& m : v) { if (!first) first = &m; REQ("K02", *first == m, "a task gave different stop sources to different threads"); if (x.asked > 0) REQ("K02", m.stop_requested(), "a task was requested to stop and its source does not know"); else if (!*x.all) REQ("K02", !m.stop_requested(), "a task was never requested to stop and its source says so"); }
		REQ("K02", x.trues <= 1 && (x.trues == 1 || *x.all > 0 || x.asked == 0), "%d requests to stop one task succeeded", (int)x.trues);
		if (x.trues) cover("one request succeeded");
		if (x.cbs) REQ("K02", x.runs <= x.cbs, "%ld calls of %d stop callbacks", (long)x.runs, (int)x.cbs);
	}
}
#endif
} // namespace

#if PART == 1
FAMILY("K01,L01", stop_st, 5, false) { run_stop(); }
FAMILY("K02,L01,T02", stopall_st, 5, false) { run_stopall(); }
#else
FAMILY("K01,L01,R01", stop_mt, 5, true) { run_stop_mt(); }
FAMILY("K01,R01", stop_race, 1, true) { run_race(); }
FAMILY("K02,L01,R01,S03", stopall_mt, 5, true) { run_stopall_mt(); }
FAMILY("K02,L01,R01", stop_src_mt, 3, true) { run_src_mt(); }
#endif
