// Channels: C01 (exactly once, in order), C02 (bounded buffering, nobody stranded).
#include "mon.h"
using namespace mon;

namespace {
enum { W_START = 1, W_END, R_START, R_END, W_SUSP, R_SUSP, PHASE };
const char* kn(uint32_t k) { static const char* n[] = {"?", "W_START", "W_END", "R_START", "R_END", "W_SUSP", "R_SUSP", "PHASE"}; return k < 8 ? n[k] : "?"; }

// ------------------------------------------------------------------ single threaded, exact model
struct Op { bool write; long val; bool served = false, done = false, imm = false; uint64_t ev = 0, batch = 0; };
struct Model {
	size_t N = 0;
	std::deque<long> buf; std::deque<int> rw, ww;
	std::vector<Op> ops; uint64_t ev = 0, batch = 0; long nextval = 1; int pending = 0;
	int invoke(bool write, long v)
	{
		int id = (int)ops.size(); ops.push_back(Op{ write, v }); Op& o = ops.back();
		o.ev = ++ev; o.batch = batch; ++pending;
		vs::log(write ? W_START : R_START, id, v);
		if (write) {
			if (!rw.empty()) { Op& r = ops[(size_t)rw.front()]; rw.pop_front(); r.val = v; r.served = true; o.served = o.imm = true; cover("write wakes reader"); }
			else if (buf.size() < N) { buf.push_back(v); o.served = o.imm = true; if (buf.size() == N) cover("buffer filled"); }
			else { ww.push_back(id); cover(ww.size() > 1 ? "several writers wait" : "writer waits"); }
		} else {
			if (!buf.empty()) {
				o.val = buf.front(); buf.pop_front(); o.served = o.imm = true;
				if (!ww.empty()) { Op& w = ops[(size_t)ww.front()]; ww.pop_front(); buf.push_back(w.val); w.served = true; cover("read wakes writer into buffer"); }
			} else if (!ww.empty()) { Op& w = ops[(size_t)ww.front()]; ww.pop_front(); o.val = w.val; w.served = true; o.served = o.imm = true; cover("read takes from writer"); }
			else { rw.push_back(id); cover(rw.size() > 1 ? "several readers wait" : "reader waits"); }
		}
		return id;
	}
	// would a plain call return at once?
	bool can_write() const { return !rw.empty() || buf.size() < N; }
	bool can_read() const { return !buf.empty() || !ww.empty(); }
	void complete(int id, long v, bool has_val)
	{
		Op& o = ops[(size_t)id]; vs::log(o.write ? W_END : R_END, id, v);
		REQUIRE(!o.done, "operation %d completed twice", id);
		o.done = true; --pending;
		REQ("C02", o.served, "%s %d completed although %s", o.write ? "write" : "read", id, o.write ? "the buffer is full and no reader waits" : "there is no value for it");
		REQ("C02", !o.imm || (o.ev == ev && o.batch == batch), "%s %d was suspended although it could complete at once", o.write ? "write" : "read", id);
		if (has_val && o.served) REQUIRE(v == o.val, "read %d returned %ld, in order it is %ld", id, v, o.val);
		++ev;
	}
	void check_quiet()
	{
		for (size_t i = 0; i < ops.size(); ++i)
			REQUIRE(ops[i].done || !ops[i].served, "%s %zu is left suspended although it has been served", ops[i].write ? "write" : "read", i);
	}
};

template<class Ch> struct ST {
	using T = typename Ch::value_type;
	Model m[2]; std::vector<Ch> ch; int left = 0;
};
template<class Ch> future_t<> st_read(Ch c, Model& m)
{
	using T = typename Ch::value_type;
	int id = m.invoke(false, 0);
	if (R.chance(50)) { T v = co_await c.read(); m.complete(id, Mk<T>::get(v), true); }
	else { T v = co_await c; m.complete(id, Mk<T>::get(v), true); }
}
template<class Ch> future_t<> st_write(Ch c, Model& m)
{
	using T = typename Ch::value_type;
	long v = m.nextval++;
	if constexpr (std::is_copy_constructible_v<T>) if (R.chance(30)) { Kept<T> t(v, "a channel"); const T& ct = t.t; bool k = R.chance(50); int id = m.invoke(true, v); if (R.chance(50)) co_await (k ? c << t.t : c << ct); else co_await c.write(t.t); m.complete(id, v, false); co_return; }
	if (R.chance(50)) { T t = Mk<T>::make(v); int id = m.invoke(true, v); co_await (c << std::move(t)); m.complete(id, v, false); }
	else { int id = m.invoke(true, v); co_await c.write(Mk<T>::make(v)); m.complete(id, v, false); }
}
template<class Ch> future_t<> st_worker(ST<Ch>* st, std::vector<Ch> mine, int nops, int bias)
{
	using T = typename Ch::value_type;
	for (int i = 0; i < nops; ++i) {
		int k = R.below((int)mine.size()); Model& m = st->m[k];
		int q = R.below(100);
		if (q < 10) { co_await yield(); continue; }
		if (q < 16 && m.can_write()) { long v = m.nextval++; int id = m.invoke(true, v); if constexpr (std::is_copy_constructible_v<T>) { Kept<T> t(v, "a channel"); mine[(size_t)k].write(t.t); } else mine[(size_t)k].write(Mk<T>::make(v)); m.complete(id, v, false); cover("plain write"); continue; }
		if (q < 22 && m.can_read()) { int id = m.invoke(false, 0); mine[(size_t)k].read(); m.complete(id, 0, false); cover("plain read"); continue; }
		bool wr = R.chance(bias);
		if (q < 40) {
			if (wr) co_await st_write(mine[(size_t)k], m); else co_await st_read(mine[(size_t)k], m);
		} else if (wr) {
			long v = m.nextval++; int id = m.invoke(true, v);
			if (q & 1) co_await mine[(size_t)k].write(Mk<T>::make(v)); else co_await (mine[(size_t)k] << Mk<T>::make(v));
			m.complete(id, v, false);
		} else {
			int id = m.invoke(false, 0);
			T v = co_await mine[(size_t)k]; m.complete(id, Mk<T>::get(v), true);
		}
	}
	--st->left;
}
template<class Ch> void run_st()
{
	using T = typename Ch::value_type;
	vs::kind_name = kn;
	static const int caps[] = {0, 0, 1, 1, 2, 3, 4, 7};
	auto st = std::make_unique<ST<Ch>>();
	int nch = R.chance(25) ? 2 : 1;
	for (int i = 0; i < nch; ++i) { st->m[i].N = (size_t)(big ? R.range(0, 90) : caps[R.below(8)]); st->ch.emplace_back(st->m[i].N); REQ("C02", st->ch.back().capacity() == st->m[i].N, "capacity"); }
	std::vector<Ch> keep = st->ch;
	int nw = upto(1, 6, 60); st->left = nw;
	int style = R.below(4);
	for (int i = 0; i < nw; ++i) go st_worker<Ch>(st.get(), st->ch, upto(1, 12, 40), style == 0 ? 50 : style == 1 ? (i & 1 ? 90 : 10) : style == 2 ? 70 : 30);
	if (R.chance(50)) { st->ch.clear(); }
	auto batch = [&] {
		bool r = G()->run_one_batch();
		for (auto& m : st->m) { ++m.batch; }
		return r;
	};
	int guard = 0;
	for (;;) {
		while (batch()) REQUIRE(++guard < 100000, "channel coroutines never settle");
		for (auto& m : st->m) m.check_quiet();
		int pend = st->m[0].pending + st->m[1].pending;
		if (!pend) break;
		cover("drain");
		for (int k = 0; k < nch; ++k) {
			Model& m = st->m[k];
			if (!m.ww.empty()) go st_read<Ch>(keep[(size_t)k], m);
			else if (!m.rw.empty()) go st_write<Ch>(keep[(size_t)k], m);
		}
		if (R.chance(20)) keep = std::vector<Ch>(keep);
	}
	REQUIRE(st->left == 0, "%d workers did not finish", st->left);
	for (int k = 0; k < nch; ++k) {   // what is still buffered comes out in order, and then nothing
		Model& m = st->m[k];
		bool take = R.chance(60);
		while (take && !m.buf.empty()) { go st_read<Ch>(keep[(size_t)k], m); while (batch()) {} m.check_quiet(); REQUIRE(!m.pending, "a buffered value is lost"); }
	}
	REQUIRE(G()->empty(), "scheduler not empty");
	(void)sizeof(T);
}

// ------------------------------------------------------------------ several threads
struct MOp { Rx<bool> write; Rx<int> chan; Rx<long> val; Rx<int> sch; };
template<class Ch> struct MT {
	using T = typename Ch::value_type;
	std::vector<Ch> ch; std::vector<size_t> N;
	std::vector<MOp> ops; std::atomic<int> nops{ 0 }, ndone{ 0 };
	std::vector<std::vector<int>> open;    // per scheduler: operations started and not known to be suspended
	std::vector<std::unique_ptr<std::atomic<int>>> finished;
	World* w = nullptr;
	int start(bool wr, int chan, long val, int sch)
	{
		int id = nops.fetch_add(1, std::memory_order_relaxed);
		ops[(size_t)id] = MOp{ wr, chan, val, sch };
		if (sch >= 0) open[(size_t)sch].push_back(id);
		vs::log(wr ? W_START : R_START, id, val);
		return id;
	}
	void end(int id, long v)
	{
		finished[(size_t)id]->store(1, std::memory_order_relaxed);
		vs::log(ops[(size_t)id].write ? W_END : R_END, id, v); ndone.fetch_add(1, std::memory_order_relaxed);
	}
	void after(int i)
	{
		auto& o = open[(size_t)i];
		for (int id : o) if (!finished[(size_t)id]->load(std::memory_order_relaxed)) vs::log(ops[(size_t)id].write ? W_SUSP : R_SUSP, id);
		o.clear();
	}
};
std::atomic<long> g_val;
template<class Ch> future_t<> mt_worker(MT<Ch>* st, Ch c, int chan, int sch, int nr, int nw, uint64_t seed, int expect_sched)
{
	using T = typename Ch::value_type;
	Rng r; r.seed(seed);
	scheduler_t* mine = st->w->s(expect_sched);
	while (nr + nw > 0) {
		bool wr = r.below(nr + nw) < nw;
		if (r.chance(10)) co_await yield();
		if (wr) {
			--nw; long v = g_val.fetch_add(1, std::memory_order_relaxed);
			int id = st->start(true, chan, v, sch);
			if (r.chance(50)) co_await c.write(Mk<T>::make(v)); else co_await (c << Mk<T>::make(v));
			st->end(id, v);
		} else {
			--nr; int id = st->start(false, chan, 0, sch);
			T t = co_await c.read();
			st->end(id, Mk<T>::get(t));
		}
		REQUIRE(this_scheduler() == mine, "coroutine resumed on another scheduler's thread");
	}
}
template<class Ch> void check_log(MT<Ch>& st, bool complete)
{
	struct I { size_t s = ~0ull, c = ~0ull, e = ~0ull; long val = 0; };
	size_t n = (size_t)st.nops.load();
	std::vector<I> x(n); std::map<long, int> wr, rd;
	std::vector<long> cw(st.ch.size()), sr(st.ch.size());
	for (size_t i = 0; i < vs::log_size(); ++i) {
		const vs::Ev& e = vs::log_at(i); if (e.kind == PHASE) continue;
		I& o = x[(size_t)e.a]; MOp& op = st.ops[(size_t)e.a]; size_t k = (size_t)op.chan;
		switch (e.kind) {
		case W_START: o.s = i; o.val = e.b; wr[e.b] = (int)e.a; break;
		case R_START: o.s = i; ++sr[k]; break;
		case W_SUSP: case R_SUSP: if (o.c == ~0ull) o.c = i; break;
		case W_END: o.e = i; if (o.c == ~0ull) o.c = i; ++cw[k];
			REQ("C02", cw[k] <= (long)st.N[k] + sr[k], "%ld writes completed with %ld reads begun on a channel of capacity %zu", cw[k], sr[k], st.N[k]); break;
		case R_END: {
			o.e = i; if (o.c == ~0ull) o.c = i; o.val = e.b;
			auto it = wr.find(e.b);
			REQUIRE(it != wr.end() && st.ops[(size_t)it->second].chan == op.chan, "read returned %lld, which has not been written", (long long)e.b);
			REQUIRE(rd.find(e.b) == rd.end(), "value %lld was read twice", (long long)e.b);
			rd[e.b] = (int)e.a; break; }
		}
	}
	if (complete) for (auto& p : wr) REQUIRE(x[(size_t)p.second].e == ~0ull || rd.count(p.first), "value %ld was written and never read", p.first);
	// order: writes that took effect in turn are read by reads that took effect in turn
	if (focus("C01,C02"))
	for (auto& p : wr) { auto r1 = rd.find(p.first); if (r1 == rd.end()) continue;
		for (auto& q : wr) {
			I& w1 = x[(size_t)p.second]; I& w2 = x[(size_t)q.second];
			if (!(w1.c < w2.s) || st.ops[(size_t)p.second].chan != st.ops[(size_t)q.second].chan) continue;
			auto r2 = rd.find(q.first); if (r2 == rd.end()) continue;
			I& a = x[(size_t)r1->second]; I& b = x[(size_t)r2->second];
			REQUIRE(!(b.c < a.s), "value %ld was written before %ld and read after it", p.first, q.first);
		} }
}
template<class Ch> void check_quiet_mt(MT<Ch>& st)
{
	std::vector<long> cw(st.ch.size()), cr(st.ch.size()), pw(st.ch.size()), pr(st.ch.size());
	int n = st.nops.load(std::memory_order_relaxed);
	for (int i = 0; i < n; ++i) { size_t k = (size_t)st.ops[(size_t)i].chan; bool f = st.finished[(size_t)i]->load(std::memory_order_relaxed);
		if (st.ops[(size_t)i].write) ++(f ? cw : pw)[k]; else ++(f ? cr : pr)[k]; }
	for (size_t k = 0; k < st.ch.size(); ++k) {
		long buf = cw[k] - cr[k];
		REQUIRE(buf >= 0 && buf <= (long)st.N[k], "%ld writes and %ld reads completed, capacity %zu", cw[k], cr[k], st.N[k]);
		REQ("C02", !(pr[k] && buf), "%ld readers are suspended while %ld values are buffered", pr[k], buf);
		REQ("C02", !(pr[k] && pw[k]), "%ld readers and %ld writers are suspended on one channel", pr[k], pw[k]);
		REQ("C02", !(pw[k] && buf < (long)st.N[k]), "%ld writers are suspended while there is room (%ld of %zu)", pw[k], buf, st.N[k]);
		if (pw[k]) cover("quiet with writers waiting"); else if (pr[k]) cover("quiet with readers waiting"); else cover("quiet, nobody waits");
	}
}
template<class Ch> void run_mt(bool with_ext)
{
	using T = typename Ch::value_type;
	vs::kind_name = kn; g_val.store(1, std::memory_order_relaxed);
	static const int caps[] = {0, 0, 1, 1, 2, 3, 5};
	MT<Ch> st; World w(R.range(1, 3)); st.w = &w;
	int nch = R.chance(20) ? 2 : 1;
	for (int i = 0; i < nch; ++i) { st.N.push_back((size_t)(big ? R.range(0, 40) : caps[R.below(7)])); st.ch.emplace_back(st.N.back()); }
	size_t room = big ? 2400 : 600; st.ops.resize(room); for (size_t i = 0; i < room; ++i) st.finished.push_back(std::make_unique<std::atomic<int>>(0));
	st.open.resize((size_t)w.n);
	struct Sp { int sch, chan, nr, nw; uint64_t seed; };
	std::vector<Sp> sp;
	long tw = 0, tr = 0;
	int nwk = upto(2, 6, 24);
	for (int i = 0; i < nwk; ++i) {
		Sp s{ R.below(w.n), R.below(nch), 0, 0, R.next() };
		if (with_ext) { s.chan = 0; if (i & 1) s.nw = upto(1, 6, 20); else s.nr = upto(1, 6, 20); }
		else { s.nr = upto(0, 5, 20); s.nw = upto(0, 5, 20); }
		tw += s.nw; tr += s.nr; sp.push_back(s);
	}
	std::vector<std::pair<int, int>> extp;   // plain threads: writes, reads
	if (with_ext) {
		int ne = R.range(1, 2);
		for (int i = 0; i < ne; ++i) extp.push_back({ R.range(1, 5), 0 });
		for (auto& e : extp) tw += e.first;
		// (a plain reader and a plain writer never wait in the channel, so they meet only in a buffer)
		if (st.N[0] > 0 && R.chance(30)) { int k = R.range(1, 3); extp.push_back({ 0, k }); tr += k; }
		while (tr != tw) {
			if (tr < tw) { int k = (int)std::min<long>(tw - tr, 4); sp.push_back(Sp{ R.below(w.n), 0, k, 0, R.next() }); tr += k; }
			else { int k = (int)std::min<long>(tr - tw, 4); sp.push_back(Sp{ R.below(w.n), 0, 0, k, R.next() }); tw += k; }
		}
	}
	w.init = [&](int i) { for (auto& s : sp) if (s.sch == i) go mt_worker<Ch>(&st, st.ch[(size_t)s.chan], s.chan, i, s.nr, s.nw, s.seed, i); };
	w.after_batch = [&](int i) { st.after(i); };
	bool dropread = false;
	for (auto& e : extp) {
		if (e.second) dropread = true;
		w.ext.push_back([&st, e, c = st.ch[0]] {
			for (int i = 0; i < e.first; ++i) { long v = g_val.fetch_add(1, std::memory_order_relaxed); int id = st.start(true, 0, v, -1); c.write(Mk<T>::make(v)); st.end(id, v); }
			for (int i = 0; i < e.second; ++i) { c.read(); }
		});
	}
	w.start();
	w.quiet();
	if (!with_ext) {
		check_quiet_mt(st);
		for (int round = 0; round < 200; ++round) {
			int p = st.nops.load(std::memory_order_relaxed) - st.ndone.load(std::memory_order_relaxed);
			if (!p) break;
			vs::log(PHASE, round);
			for (int k = 0; k < nch; ++k) {
				int pw = 0, pr = 0, n = st.nops.load(std::memory_order_relaxed);
				for (int i = 0; i < n; ++i) if (st.ops[(size_t)i].chan == k && !st.finished[(size_t)i]->load(std::memory_order_relaxed)) ++(st.ops[(size_t)i].write ? pw : pr);
				int s = R.below(w.n);
				int cnt = R.range(1, 3);
				if (pw) *w.s(s) + mt_worker<Ch>(&st, st.ch[(size_t)k], k, -1, std::min(cnt, pw), 0, R.next(), s);
				else if (pr) *w.s(s) + mt_worker<Ch>(&st, st.ch[(size_t)k], k, -1, 0, std::min(cnt, pr), R.next(), s);
			}
			w.quiet(); check_quiet_mt(st);
		}
	}
	REQUIRE(st.ndone.load() == st.nops.load(), "%d of %d operations never completed", st.nops.load() - st.ndone.load(), st.nops.load());
	// whatever is still buffered must be in there, in order: read it out
	w.finish();
	if (!dropread) check_log(st, false);
	if (!dropread) {
		auto rest = std::make_shared<std::vector<long>>();
		for (int k = 0; k < nch; ++k) {
			std::set<long> have; int n = st.nops.load();
			for (size_t i = 0; i < vs::log_size(); ++i) { auto& e = vs::log_at(i); if (e.kind == W_END && st.ops[(size_t)e.a].chan == k) have.insert(e.b); }
			for (size_t i = 0; i < vs::log_size(); ++i) { auto& e = vs::log_at(i); if (e.kind == R_END && st.ops[(size_t)e.a].chan == k) have.erase(e.b); }
			(void)n;
			size_t cnt = have.size();
			go [](Ch c, size_t cnt, std::shared_ptr<std::vector<long>> out) -> future_t<> { for (size_t i = 0; i < cnt; ++i) { T t = co_await c; out->push_back(Mk<T>::get(t)); } }(st.ch[(size_t)k], cnt, rest);
			settle();
			REQUIRE(rest->size() == cnt, "%zu of %zu buffered values are lost", cnt - rest->size(), cnt);
			for (long v : *rest) REQUIRE(have.erase(v) == 1, "value %ld came out of the buffer and was not in it", v);
			if (cnt) cover("values left in the buffer");
			rest->clear();
		}
	}
}
using CL = channel_t<long>; using CS = channel_t<std::string>; using CU = channel_t<std::unique_ptr<Obj>>;
using CO = channel_t<Obj>; using COn = channel_t<Obj, false>; using CN = channel_t<NObj>;
using CLt = channel_t<long, false, true>; using COt = channel_t<Obj, true, true>; using CM = channel_t<MObj, true, false>; using CLo = channel_t<long, true, false>;
} // namespace

#if PART == 1
FAMILY("C01,C02,L01", chan_st, 6, false)
{
	switch (R.below(6)) {
	case 0: run_st<CL>(); break; case 1: run_st<CU>(); break; case 2: run_st<CO>(); break;
	case 3: run_st<COn>(); break; case 4: run_st<CLt>(); break;
	default: run_st<CN>(); break;
	}
}
#elif PART == 2
FAMILY("C01,C02,L01,R01,S03", chan_mt, 3, true)
{
	switch (R.below(3)) { case 0: run_mt<CL>(false); break; case 1: run_mt<CO>(false); break; default: run_mt<CLt>(false); }
}
FAMILY("C01,C02,L01,R01", chan_mt_plain, 2, true)
{
	switch (R.below(3)) { case 0: run_mt<CL>(true); break; case 1: run_mt<CO>(true); break; default: run_mt<CLt>(true); }
}
#elif PART == 3   // further element types, for the thorough tier
FAMILY("C01,C02,L01", chan_st_more, 3, false)
{
	switch (R.below(4)) { case 0: run_st<CS>(); break; case 1: run_st<COt>(); break; case 2: run_st<CLo>(); break; default: run_st<CM>(); break; }
}
FAMILY("C01,C02,L01,R01", chan_mt_more, 2, true)
{
	switch (R.below(4)) { case 0: run_mt<CN>(false); break; case 1: run_mt<COn>(false); break; case 2: run_mt<CU>(true); break; default: run_mt<COt>(true); }
}
#endif
